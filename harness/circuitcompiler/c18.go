package circuitcompiler

import "math/big"

// if - else if - else: exactly the first branch whose condition holds; branches
// assign, return or call
//
//symgo:run C18 quick time=200 p.k=3 p.ops=3
//symgo:run C18 thorough time=700 p.k=4 p.ops=6
func HC18_chain() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	k, n := symParam("k", 3), symParam("ops", 3)
	a, b, d := symChoose("a", k), symChoose("b", k), symChoose("c", k)
	p, q := vPick("p", vCmpOps[:n]), vPick("q", vCmpOps[:n])
	form := symChoose("form", 5)
	c1 := vNum(a) + p + vNum(b)
	c2 := "v" + q + vNum(d)
	v := vInt(vB(int64(a)))
	X, Y := vInt(x), vInt(y)
	r := X
	head := "var v = " + vNum(a) + "\nvar r = x\n"
	t1, t2 := vCmp(p, a, b), vCmp(q, a, d)
	switch form {
	case 0: // if
		if t1 {
			r = vOp("*", r, Y)
		}
		vExpect(head+"if "+c1+" {\nr = r*y\n}\nequal(r,o)\nreturn\n", "", r, x, y)
	case 1: // if else
		if t1 {
			r = vOp("*", r, Y)
		} else {
			r = vOp("+", r, v)
		}
		vExpect(head+"if "+c1+" {\nr = r*y\n}else{\nr = r+v\n}\nequal(r,o)\nreturn\n", "", r, x, y)
	case 2: // chain
		if t1 {
			r = vOp("*", r, Y)
		} else if t2 {
			r = vOp("-", r, Y)
		} else {
			r = vOp("+", r, v)
		}
		vExpect(head+"if "+c1+" {\nr = r*y\n}else if "+c2+"{\nr = r-y\n}else{\nr = r+v\n}\nequal(r,o)\nreturn\n", "", r, x, y)
	case 3: // returns
		if t1 {
			r = Y
		} else if t2 {
			r = vOp("*", X, Y)
		}
		vExpect("equal(f("+vNum(a)+"),o)\nreturn\n", "func f(v){\nif "+c1+" {\nreturn y\n}else if "+c2+"{\nvar t = x*y\nreturn t\n}else{\nreturn x\n}\n}\n", vFrac{num: vB(0), den: vB(1), undef: []*big.Int{vB(0)}}, x, y)
		vExpect("func f(v){\nif "+c1+" {\nreturn y\n}else if "+c2+"{\nvar t = x*y\nreturn t\n}else{\nvar s = 1\n}\nreturn x\n}\nequal(f("+vNum(a)+"),o)\nreturn\n", "", r, x, y)
	case 4: // two statements one after the other
		if t1 {
			r = vOp("*", r, Y)
		}
		if t2 {
			r = vOp("+", r, Y)
		} else {
			r = vOp("*", r, X)
		}
		vExpect(head+"if "+c1+" {\nr = r*y\n}\nif "+c2+"{\nr = r+y\n}else{\nr = r*x\n}\nequal(r,o)\nreturn\n", "", r, x, y)
	}
}

// nested conditionals
//
//symgo:run C18 quick time=200 p.k=2 p.ops=2
//symgo:run C18 thorough time=700 p.k=3 p.ops=4
func HC18_nested() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	k, n := symParam("k", 2), symParam("ops", 2)
	a, b, d, e := symChoose("a", k), symChoose("b", k), symChoose("c", k), symChoose("d", k)
	p, q, s := vPick("p", vCmpOps[:n]), vPick("q", vCmpOps[:n]), vPick("s", vCmpOps[:n])
	X, Y := vInt(x), vInt(y)
	t1, t2, t3 := vCmp(p, a, b), vCmp(q, a, d), vCmp(s, b, e)
	ret := symChoose("return", 2) == 1
	r := X
	stmt := func(e string) string {
		if ret {
			return "return " + e + "\n"
		}
		return "r = " + e + "\n"
	}
	if t1 {
		if t2 {
			r = vOp("*", X, Y)
		} else {
			r = vOp("+", X, Y)
		}
	} else {
		if t3 {
			r = vOp("-", X, Y)
		}
	}
	if !ret || !(t1 || t3) {
		r = vOp("+", vOp("*", vInt(vB(5)), r), Y)
	}
	body := "if u" + p + vNum(b) + "{\nif u" + q + vNum(d) + "{\n" + stmt("x*y") + "}else{\n" + stmt("x+y") + "}\n}else{\nif w" + s + vNum(e) + "{\n" + stmt("x-y") + "}\n}\n"
	code := "var f = func(u,w){\nvar r = x\n" + body + "return (5*r)+y\n}\nequal(f(" + vNum(a) + "," + vNum(b) + "),o)\nreturn\n"
	vExpect(code, "", r, x, y)
}

// loops run exactly as often as the condition says
//
//symgo:run C18 quick time=200 p.k=4
//symgo:run C18 thorough time=700 p.k=7
func HC18_loop() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	k := symParam("k", 4)
	i0, n := symChoose("from", k), symChoose("to", k)
	step := symChoose("step", 2) + 1
	op := vPick("op", []string{"<", "<="})
	form := symChoose("form", 6)
	X, Y := vInt(x), vInt(y)
	r := Y
	I := func(i int) vFrac { return vInt(vB(int64(i))) }
	loop := "for (i" + op + vNum(n) + "; i = i+" + vNum(step) + "){\n"
	head := "var i = " + vNum(i0) + "\nvar r = y\n"
	if form == 5 { // downwards
		for i := k; i > i0; i -= step {
			r = vOp("+", vOp("*", r, X), I(i))
			if i-step < 0 {
				symStop() // would leave the small numbers
			}
		}
		vExpect("var i = "+vNum(k)+"\nvar r = y\nfor (i>"+vNum(i0)+"; i = i-"+vNum(step)+"){\nr = (r*x)+i\n}\nequal(r,o)\nreturn\n", "", r, x, y)
		return
	}
	i := i0
	ret := false
	for ; vCmp(op, i, n) && !ret; i += step {
		switch form {
		case 0:
			r = vOp("+", vOp("*", r, X), I(i))
		case 1: // if in the loop
			if i == 1 {
				r = vOp("*", r, X)
			} else {
				r = vOp("+", r, X)
			}
		case 2: // declaration and call in the loop
			r = vOp("*", vOp("+", r, I(i)), vOp("+", r, I(i)))
		case 3: // nested loop
			for j := 0; j < i; j++ {
				r = vOp("+", vOp("*", r, X), I(j))
			}
		case 4: // return in the loop
			if i == 2 {
				r = vOp("*", r, vInt(vB(9)))
				ret = true
			} else {
				r = vOp("+", r, X)
			}
		}
	}
	switch form {
	case 0:
		vExpect(head+loop+"r = (r*x)+i\n}\nequal(r+i,o)\nreturn\n", "", vOp("+", r, I(i)), x, y)
	case 1:
		vExpect(head+loop+"if i==1{\nr = r*x\n}else{\nr = r+x\n}\n}\nequal(r,o)\nreturn\n", "", r, x, y)
	case 2:
		vExpect(head+loop+"var t = r+i\nr = sq(t)\n}\nequal(r,o)\nreturn\n", "func sq(i){\nreturn i*i\n}\n", r, x, y)
	case 3:
		vExpect(head+loop+"var j = 0\nfor (j<i; j=j+1){\nr = (r*x)+j\n}\n}\nequal(r,o)\nreturn\n", "", r, x, y)
	case 4:
		if !ret {
			r = vOp("-", r, Y)
		}
		vExpect("var f = func(){\n"+head+loop+"if i==2{\nreturn r*9\n}\nr = r+x\n}\nreturn r-y\n}\nequal(f(),o)\nreturn\n", "", r, x, y)
	}
}

// recursion, loops written as recursive functions
//
//symgo:run C18 both time=200 p.k=5
func HC18_recursion() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	n := symChoose("n", symParam("k", 5))
	X, Y := vInt(x), vInt(y)
	switch symChoose("form", 4) {
	case 0:
		r := Y
		for i := 0; i < n; i++ {
			r = vOp("*", X, r)
		}
		vExpect("equal(pow("+vNum(n)+",x,y),o)\nreturn\n", "func pow(n,b,c){\nif n==0{\nreturn c\n}\nreturn b*pow(n-1,b,c)\n}\n", r, x, y)
	case 1: // fibonacci like double recursion
		var f func(n int) vFrac
		f = func(n int) vFrac {
			if n == 0 {
				return X
			}
			if n == 1 {
				return Y
			}
			return vOp("+", vOp("*", vInt(vB(2)), f(n-1)), f(n-2))
		}
		vExpect("equal(fib("+vNum(n)+",x,y),o)\nreturn\n", "func fib(n,a,b){\nif n==0{\nreturn a\n}\nif n==1{\nreturn b\n}\nreturn (2*fib(n-1,a,b))+fib(n-2,a,b)\n}\n", f(n), x, y)
	case 2: // two functions calling each other
		r := Y
		for i := n; i > 0; i-- {
			if (n-i)%2 == 0 {
				r = vOp("*", r, X)
			} else {
				r = vOp("+", r, X)
			}
		}
		vExpect("equal(even("+vNum(n)+",y),o)\nreturn\n", "", vFrac{num: vB(0), den: vB(1), undef: []*big.Int{vB(0)}}, x, y)
		vExpect("equal(even("+vNum(n)+",y,x),o)\nreturn\n",
			"func even(n,r,x){\nif n==0{\nreturn r\n}\nreturn odd(n-1,(r*x),x)\n}\nfunc odd(n,r,x){\nif n==0{\nreturn r\n}\nreturn even(n-1,(r+x),x)\n}\n", r, x, y)
	case 3: // iterate a function given as argument
		r := Y
		for i := 0; i < n; i++ {
			r = vOp("*", vOp("+", r, vInt(vB(int64(i)))), X)
		}
		vExpect("var r = y\nvar step = func(i){\nr = (r+i)*x\n}\niterate(0,"+vNum(n)+",step)\nequal(r,o)\nreturn\n",
			"func iterate(a,b,call){\nif a==b{\nreturn\n}\ncall(a)\niterate(a+1,b,call)\n}\n", r, x, y)
	}
}

// every comparison of computed numbers, in an if, an else if and a loop
//
//symgo:run C18 both time=200
func HC18_operators() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	big64 := new(big.Int).Lsh(vB(1), 64)
	text := []string{"0", "2", "10", "9", "k", "(5-3)", "(k*5)", "g(k)", "d[1]", "18446744073709551616", "18446744073709551615", "((k*9223372036854775808)+0)", "(20/2)"}
	vals := []*big.Int{vB(0), vB(2), vB(10), vB(9), vB(2), vB(2), vB(10), vB(3), vB(9), big64, new(big.Int).Sub(big64, vB(1)), big64, vB(10)}
	a, b := symChoose("a", len(text)), symChoose("b", len(text))
	op := vPick("op", vCmpOps)
	t := vCmp(op, vals[a].Cmp(vals[b]), 0)
	c := text[a] + op + text[b]
	head := "var k = 2\nvar d[] = {10,9}\nvar r = x\n"
	fn := "func g(i){\nreturn i+1\n}\n"
	X, Y := vInt(x), vInt(y)
	r := X
	switch symChoose("form", 3) {
	case 0:
		if t {
			r = vOp("*", r, Y)
		} else {
			r = vOp("+", r, Y)
		}
		vExpect(head+"if "+c+" {\nr = r*y\n}else{\nr = r+y\n}\nequal(r,o)\nreturn\n", fn, r, x, y)
	case 1:
		if t {
			r = vOp("-", r, Y)
		} else {
			r = vOp("+", r, Y)
		}
		vExpect(head+"if 1==2 {\nr = r*y\n}else if "+c+"{\nr = r-y\n}else{\nr = r+y\n}\nequal(r,o)\nreturn\n", fn, r, x, y)
	case 2:
		if t {
			r = vOp("*", r, Y)
		}
		vExpect("var f = func(){\n"+head+"for ("+c+";k = k+0){\nreturn r*y\n}\nreturn r\n}\nequal(f(),o)\nreturn\n", fn, r, x, y)
	}
}

// many conditionals and loops, in a row and nested
//
//symgo:run C18 quick time=120 p.n=17 steps=40000000
//symgo:run C18 thorough time=400 p.n=65 steps=90000000
func HC18_long() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	n := vLongSize("n", symParam("n", 17))
	form := symChoose("form", 7)
	pick := []int{0, n / 2, n - 1, n}[symChoose("pick", 4)]
	Y := vInt(y)
	I := func(i int) vFrac { return vInt(vB(int64(i))) }
	dbl := func(r vFrac) vFrac { return vOp("+", vOp("*", I(2), r), Y) }
	r := vInt(x)
	head, body, rest := "var v = "+vNum(pick)+"\nvar r = x\n", "", ""
	switch form {
	case 0: // conditionals in a row
		for k := 0; k < n; k++ {
			body += "if v==" + vNum(k) + "{\nr = (2*r)+y\n}else{\nr = r+" + vNum(k) + "\n}\n"
			if k == pick {
				r = dbl(r)
			} else {
				r = vOp("+", r, I(k))
			}
		}
	case 1: // a chain
		for k := 0; k < n; k++ {
			body += "if v==" + vNum(k) + "{\nr = r+(" + vNum(k+1) + "*y)\n}else "
			if k == pick {
				r = vOp("+", r, vOp("*", I(k+1), Y))
			}
		}
		body += "{\nr = r-y\n}\n"
		if pick == n {
			r = vOp("-", r, Y)
		}
	case 2: // nested conditionals
		for k := 0; k < n; k++ {
			body += "if v!=" + vNum(k) + "{\n"
		}
		body += "r = (2*r)+y\n"
		if pick == n {
			r = dbl(r)
		}
		for k := n - 1; k >= 0; k-- {
			body += "r = r+" + vNum(k) + "\n}else{\nr = (2*r)+y\n}\n"
			if k < pick {
				r = vOp("+", r, I(k))
			} else if k == pick {
				r = dbl(r)
			}
		}
	case 3: // loops in a row
		body = "var i = 0\n"
		for k := 0; k < n; k++ {
			c := (k + pick) % 3
			body += "i = 0\nfor (i<" + vNum(c) + "; i=i+1){\nr = (2*r)+(" + vNum(k+1) + "*y)\n}\nr = r+" + vNum(k) + "\n"
			for i := 0; i < c; i++ {
				r = vOp("+", vOp("*", I(2), r), vOp("*", I(k+1), Y))
			}
			r = vOp("+", r, I(k))
		}
	case 4: // nested loops
		d := n
		if d > 5 {
			d = 5
		}
		end, times := "", 1
		for k := 0; k < d; k++ {
			c := 2
			if k == pick {
				c = 3
			}
			i := "i" + string(rune('a'+k))
			head += "var " + i + " = 0\n"
			body += i + " = 0\nfor (" + i + "<" + vNum(c) + "; " + i + "=" + i + "+1){\n"
			end += "}\n"
			times *= c
		}
		body += "r = (2*r)+y\n" + end
		for i := 0; i < times; i++ {
			r = dbl(r)
		}
	case 5: // a long loop with both inside
		body = "var i = 0\nvar j = 0\nfor (i<" + vNum(n) + "; i=i+1){\nif i<v{\nj = 0\nfor (j<2; j=j+1){\nr = r+y\n}\n}else if i==v{\nr = r+i\n}else{\nr = (2*r)+y\n}\n}\n"
		for i := 0; i < n; i++ {
			if i < pick {
				r = vOp("+", r, vOp("*", I(2), Y))
			} else if i == pick {
				r = vOp("+", r, I(i))
			} else {
				r = dbl(r)
			}
		}
	case 6: // functions that return from a branch
		for k := 0; k < n; k++ {
			f := "f" + string(rune('a'+k/26)) + string(rune('a'+k%26))
			rest += "func " + f + "(u,w,z){\nif w==" + vNum(k) + "{\nreturn (2*u)+z\n}\nif w<" + vNum(k) + "{\nreturn u-z\n}\nreturn u+" + vNum(k) + "\n}\n"
			body += "r = " + f + "(r,v,y)\n"
			if pick == k {
				r = dbl(r)
			} else if pick < k {
				r = vOp("-", r, Y)
			} else {
				r = vOp("+", r, I(k))
			}
		}
	}
	vExpect(head+body+"equal(r,o)\nreturn\n", rest, r, x, y)
}
