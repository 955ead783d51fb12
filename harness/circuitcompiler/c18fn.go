package circuitcompiler

import "math/big"

type c18Case struct {
	body, rest string
	want       vFrac
}

// function arguments bind by position, in their own scope
//
//symgo:run C18 both time=200
func HC18_scope() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	X, Y := vInt(x), vInt(y)
	N := func(n int64) vFrac { return vInt(vB(n)) }
	o1, o2 := vPick("o1", vOps[:3]), vPick("o2", vOps[:3])
	e, f := symChoose("e", 3), symChoose("f", 3)
	ec := []string{"x", "y", "(x*4)"}
	ev := []vFrac{X, Y, vOp("*", X, N(4))}
	E, F := ev[e], ev[f]
	ecode, fcode := ec[e], ec[f]
	cases := []c18Case{
		// position and name clashes
		{"equal(f(" + ecode + "," + fcode + "),o)\nreturn\n", "func f(y,x){\nreturn (y" + o1 + "7)" + o2 + "x\n}\n",
			vOp(o2, vOp(o1, E, N(7)), F)},
		// the callee's variables do not leak into the caller
		{"var t = " + ecode + "\nvar u = f(" + fcode + ")\nequal(t" + o1 + "u,o)\nreturn\n", "func f(a){\nvar t = a" + o2 + "3\nt = t*t\nreturn t\n}\n",
			vOp(o1, E, vOp("*", vOp(o2, F, N(3)), vOp(o2, F, N(3))))},
		// an assignment inside a function changes the outer variable it sees
		{"var t = " + ecode + "\nvar f = func(a){\nt = t" + o1 + "a\nreturn t\n}\nvar u = f(" + fcode + ")\nvar w = f(2)\nequal((t*u)" + o2 + "w,o)\nreturn\n", "",
			func() vFrac {
				u := vOp(o1, E, F)
				t := vOp(o1, u, N(2))
				return vOp(o2, vOp("*", t, u), t)
			}()},
		// a variable holds the value it had when it was assigned
		{"var t = " + ecode + "\nvar u = t" + o1 + "y\nt = " + fcode + "\nequal(u" + o2 + "t,o)\nreturn\n", "", vOp(o2, vOp(o1, E, Y), F)},
		// declaration in a block shadows
		{"var t = " + ecode + "\nvar r = 1\nif 1==1{\nvar t = " + fcode + "\nr = t" + o1 + "2\n}\nequal(r" + o2 + "t,o)\nreturn\n", "",
			vOp(o2, vOp(o1, F, N(2)), E)},
		// parameters can be assigned without changing the argument
		{"var t = " + ecode + "\nvar r = f(t)\nequal(r" + o2 + "t,o)\nreturn\n", "func f(a){\na = a" + o1 + "5\na = a*a\nreturn a\n}\n",
			vOp(o2, vOp("*", vOp(o1, E, N(5)), vOp(o1, E, N(5))), E)},
		// inner function sees the variables of its definition
		{"var k = " + ecode + "\nvar f = func(a){\nreturn a" + o1 + "k\n}\nequal(g(f," + fcode + "),o)\nreturn\n", "func g(h,k){\nreturn h(k)" + o2 + "k\n}\n",
			vOp(o2, vOp(o1, F, E), F)},
		// calls as arguments of calls
		{"equal(f(f(" + ecode + ",2),f(3," + fcode + ")),o)\nreturn\n", "func f(a,b){\nvar c = a" + o1 + "b\nreturn c" + o2 + "a\n}\n",
			func() vFrac {
				g := func(a, b vFrac) vFrac { return vOp(o2, vOp(o1, a, b), a) }
				return g(g(E, N(2)), g(N(3), F))
			}()},
		// nested definition with the name of an outer function
		{"func h(a){\nfunc f(a){\nreturn a" + o1 + "1\n}\nreturn f(a)\n}\nequal(h(" + ecode + ")" + o2 + "f(" + fcode + "),o)\nreturn\n", "func f(a){\nreturn a*a\n}\n",
			vOp(o2, vOp(o1, E, N(1)), vOp("*", F, F))},
		// a function changed in a block
		{"var t = 1\nvar i = 0\nfor (i<2;i=i+1){\nvar t = " + ecode + "\nt = t" + o1 + "i\n}\nequal(t" + o2 + fcode + ",o)\nreturn\n", "",
			vOp(o2, N(1), F)},
	}
	c := cases[symChoose("case", len(cases))]
	vExpect(c.body, c.rest, c.want, x, y)
}

// functions as values: arguments, preloading
//
//symgo:run C18 both time=200
func HC18_preload() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	X, Y := vInt(x), vInt(y)
	N := func(n int64) vFrac { return vInt(vB(n)) }
	o1, o2 := vPick("o1", vOps[:3]), vPick("o2", vOps[:3])
	f3 := func(a, b, c vFrac) vFrac { return vOp(o2, vOp(o1, a, b), c) }
	F3 := "func f(a,b,c){\nreturn (a" + o1 + "b)" + o2 + "c\n}\n"
	f2 := func(a, b vFrac) vFrac { return vOp(o1, vOp(o2, a, N(6)), b) }
	F2 := "func f(a,b){\nreturn (a" + o2 + "6)" + o1 + "b\n}\n"
	cases := []c18Case{
		{"var g = f(5)\nequal(g(x,y),o)\nreturn\n", F3, f3(N(5), X, Y)},
		{"var g = f(x,y)\nequal(g(3),o)\nreturn\n", F3, f3(X, Y, N(3))},
		{"var g = f(y)\nvar h = g(x)\nequal(h(2),o)\nreturn\n", F3, f3(Y, X, N(2))},
		// a preloaded function can be used again
		{"var g = f(x)\nequal(g(y)*g(3),o)\nreturn\n", F2, vOp("*", f2(X, Y), f2(X, N(3)))},
		{"var g = f(x)\nvar h = f(y)\nequal(g(2)*h(3),o)\nreturn\n", F2, vOp("*", f2(X, N(2)), f2(Y, N(3)))},
		{"var g = f(x)\nvar r = f(y,x)\nequal(g(2)-r,o)\nreturn\n", F2, vOp("-", f2(X, N(2)), f2(Y, X))},
		{"var g = f(x)\nvar h = g(y)\nvar k = g(3)\nequal(h(y)-k(x),o)\nreturn\n", F3, vOp("-", f3(X, Y, Y), f3(X, N(3), X))},
		// functions as arguments
		{"equal(apply(sq,x),o)\nreturn\n", "func apply(h,a){\nreturn h(a)" + o1 + "a\n}\nfunc sq(a){\nreturn a*a\n}\n", vOp(o1, vOp("*", X, X), X)},
		{"var m = func(a){\nreturn a" + o1 + "y\n}\nequal(apply(m,apply(m,x)),o)\nreturn\n", "func apply(h,a){\nreturn h(a)\n}\n", vOp(o1, vOp(o1, X, Y), Y)},
		{"equal(apply(f(y),x),o)\nreturn\n", F2 + "func apply(h,a){\nreturn h(a)\n}\n", f2(Y, X)},
		{"equal(twice(f(3),x),o)\nreturn\n", F2 + "func twice(h,a){\nvar t = h(a)\nreturn h(t)\n}\n", f2(N(3), f2(N(3), X))},
		// functions that return functions
		{"var g = mk(x)\nequal(g(y),o)\nreturn\n", F2 + "func mk(a){\nreturn f(a)\n}\n", f2(X, Y)},
		// a value captured when preloading
		{"var t = x\nvar g = f(t)\nt = y\nequal(g(t),o)\nreturn\n", F2, f2(X, Y)},
		// functions in variables
		{"var g = f\nequal(g(x,y),o)\nreturn\n", F2, f2(X, Y)},
	}
	c := cases[symChoose("case", len(cases))]
	vExpect(c.body, c.rest, c.want, x, y)
}

// array elements are read and written at the evaluated index
//
//symgo:run C18 quick time=200 p.k=3
//symgo:run C18 thorough time=500 p.k=4
func HC18_arrays() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	X, Y := vInt(x), vInt(y)
	N := func(n int64) vFrac { return vInt(vB(n)) }
	k := symParam("k", 3)
	i, j, l := symChoose("i", k), symChoose("j", k), symChoose("l", k)
	arr := []vFrac{X, vOp("*", X, Y), N(7), vOp("+", Y, N(1))}[:k]
	decl := []string{"var a[] = {x}\n", "var a[] = {x,x*y}\n", "var a[] = {x,x*y,7}\n", "var a[] = {x,x*y,7,y+1}\n"}[k-1]
	is, js, ls := vNum(i), vNum(j), vNum(l)
	o1 := vPick("o1", vOps[:3])
	cp := func() []vFrac { return append([]vFrac{}, arr...) }
	switch symChoose("case", 9) {
	case 8: // leading zeros
		if i+j+l != 0 {
			symStop()
		}
		long := "var a[] = {"
		for n := 0; n < 12; n++ {
			if n > 0 {
				long += ","
			}
			long += "x+" + vNum(n)
		}
		z := vPick("zeros", []string{"0", "00"})
		n := []int{3, 7, 8, 9, 10, 11}[symChoose("n", 6)]
		vExpect(long+"}\nvar b = "+z+vNum(n)+"\nequal(a["+z+vNum(n)+"]"+o1+"a[b],o)\nreturn\n", "", vOp(o1, vOp("+", X, N(int64(n))), vOp("+", X, N(int64(n)))), x, y)
	case 0:
		vExpect(decl+"equal(a["+is+"]"+o1+"a["+js+"],o)\nreturn\n", "", vOp(o1, arr[i], arr[j]), x, y)
	case 1: // index expressions
		vExpect(decl+"var i = "+is+"\nvar j = i+1\nequal(a[(2*i)-i]"+o1+"a[j-1],o)\nreturn\n", "", vOp(o1, arr[i], arr[i]), x, y)
	case 2: // write
		r := cp()
		r[i] = vOp("+", Y, r[j])
		vExpect(decl+"a["+is+"] = y+a["+js+"]\nequal(a["+ls+"]"+o1+"a["+is+"],o)\nreturn\n", "", vOp(o1, r[l], r[i]), x, y)
	case 3: // write at a computed index, twice
		r := cp()
		r[i] = vOp("*", r[i], r[j])
		r[j] = vOp(o1, r[i], N(2))
		vExpect(decl+"var k = "+is+"+4\na[k-4] = a[k-4]*a["+js+"]\na["+js+"] = a["+is+"]"+o1+"2\nequal(a["+ls+"],o)\nreturn\n", "", r[l], x, y)
	case 4: // loop over the array
		r := N(0)
		for n := i; n < k; n++ {
			r = vOp("+", vOp("*", r, Y), arr[n])
		}
		vExpect(decl+"var r = 0\nvar n = "+is+"\nfor (n<"+vNum(k)+";n=n+1){\nr = (r*y)+a[n]\n}\nequal(r,o)\nreturn\n", "", r, x, y)
	case 5: // write in a loop, read in a function
		r := cp()
		for n := 0; n < i; n++ {
			r[n] = vOp(o1, r[n], N(int64(n)))
		}
		vExpect(decl+"var n = 0\nfor (n<"+is+";n=n+1){\na[n] = a[n]"+o1+"n\n}\nvar g = func(z){\nreturn a[z]*2\n}\nequal(g("+js+"),o)\nreturn\n", "",
			vOp("*", r[j], N(2)), x, y)
	case 6: // array of values, changed after the declaration
		vExpect("var v = x\nvar a[] = {v,2*v,y}\nv = 3\nequal(a["+vNum(i%3)+"]"+o1+"v,o)\nreturn\n", "",
			vOp(o1, []vFrac{X, vOp("*", N(2), X), Y}[i%3], N(3)), x, y)
	case 7: // outside of the array
		vRejects(decl+"equal(a["+vNum(k+i)+"],o)\nreturn\n", "", "an index outside of the array is accepted")
		vRejects(decl+"a["+vNum(k+i)+"] = x\nequal(a[0],o)\nreturn\n", "", "an assignment outside of the array is accepted")
	}
}

// arrays as parameters of main, with several dimensions
//
//symgo:run C18 both time=100
func HC18_inputs() {
	n, m := symChoose("n", 3)+1, symChoose("m", 2)+1
	i, j := symChoose("i", n), symChoose("j", m)
	c, ok := vCompile("func main(u,a[" + vNum(n) + "][" + vNum(m) + "],v){\nvar k = " + vNum(i) + "\nvar b[] = {u,v}\nequal(a[k][" + vNum(j) + "]*b[0],v)\nreturn\n}\n")
	symAssert(ok, "the compiler rejects a valid program")
	var in []*big.Int
	u, v := symBig("u", vQ()), symBig("v", vQ())
	in = append(in, u)
	for k := 0; k < n*m; k++ {
		in = append(in, symBig("a"+vNum(k), vQ()))
	}
	in = append(in, v)
	_, err := vDense(c, in...)
	want := vMul(in[1+i*m+j], u)
	symAssert((err == nil) == (want.Cmp(v) == 0), "wrong element of an input array")
}

// a return without a value gives one
//
//symgo:run C18 both time=100
func HC18_emptyreturn() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	X, Y, one := vInt(x), vInt(y), vInt(vB(1))
	o1, o2 := vPick("o1", vOps[:3]), vPick("o2", vOps[:3])
	rest := "func f(i){\nif i==0{\nreturn\n}\nreturn i*f(i-1)\n}\n"
	cases := []c18Case{
		{"var b = f(0)" + o1 + "(x" + o2 + "y)\nequal(b,o)\nreturn\n", rest, vOp(o1, one, vOp(o2, X, Y))},
		{"var b = x" + o2 + "f(2)\nvar c = b" + o1 + "y\nequal(c,o)\nreturn\n", rest, vOp(o1, vOp(o2, X, vInt(vB(2))), Y)},
		{"var a = f(0)\nvar b = a" + o1 + "(x" + o2 + "y)\nvar c = (x*b)" + o2 + "b\nequal(c,o)\nreturn\n", rest,
			func() vFrac { b := vOp(o1, one, vOp(o2, X, Y)); return vOp(o2, vOp("*", X, b), b) }()},
		{"var a = f(0)\nvar t[] = {x,y,4}\nequal(t[a]" + o1 + "a,o)\nreturn\n", rest, vOp(o1, Y, one)},
	}
	c := cases[symChoose("case", len(cases))]
	vExpect(c.body, c.rest, c.want, x, y)
}
