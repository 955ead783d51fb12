package circuitcompiler

import "math/big"

const vLongForms = 16

// vLong: the body of a program over x and y whose size grows with n, the rest
// of the program, the expression it computes and the value
func vLong(form, n int, x, y *big.Int) (body, expr, rest string, want vFrac) {
	X, Y := vInt(x), vInt(y)
	I := func(i int) vFrac { return vInt(vB(int64(i))) }
	switch form {
	case 0: // power
		e := "y"
		want = Y
		for i := 0; i < n; i++ {
			e, want = "x*("+e+")", vOp("*", X, want)
		}
		expr = e
	case 1: // long sum of multiples
		e := "y"
		want = Y
		for i := 0; i < n; i++ {
			v, w := "x", X
			if i%3 == 0 {
				v, w = "y", Y
			}
			e, want = "("+vNum(i+2)+"*"+v+")+("+e+")", vOp("+", vOp("*", I(i+2), w), want)
		}
		expr = "(" + e + ")*(x-3)"
		want = vOp("*", want, vOp("-", X, I(3)))
	case 2: // sum of products
		e := "x"
		want = X
		for i := 0; i < n; i++ {
			e, want = "((x+"+vNum(i)+")*(y-"+vNum(i*i)+"))+("+e+")", vOp("+", vOp("*", vOp("+", X, I(i)), vOp("-", Y, I(i*i))), want)
		}
		expr = e
	case 3: // many variables, each used by the following two
		body = "var v0 = x\nvar v1 = y\n"
		a, b := X, Y
		for i := 2; i <= n; i++ {
			body += "var v" + vNum(i) + " = (v" + vNum(i-1) + "*" + vNum(i) + ")+v" + vNum(i-2) + "\n"
			a, b = b, vOp("+", vOp("*", b, I(i)), a)
		}
		expr = "v" + vNum(n) + "*x"
		want = vOp("*", b, X)
	case 4: // one value under many names, in many functions
		body = "var r = x\n"
		want = X
		for i := 0; i < n; i++ {
			body += "r = h" + vNum(i) + "(r,y)\n"
			rest += "func h" + vNum(i) + "(u,w){\nvar t = u+" + vNum(i) + "\nreturn t*" + []string{"w", "3", "(w-t)"}[i%3] + "\n}\n"
			t := vOp("+", want, I(i))
			want = vOp("*", t, []vFrac{Y, I(3), vOp("-", Y, t)}[i%3])
			if i > 5 { // the degree doubles with every third one
				break
			}
		}
		expr = "r"
	case 5: // an array with indices of two digits
		body = "var c[" + "] = {x"
		for i := 1; i < n; i++ {
			body += "," + []string{"y", vNum(i), "(x+" + vNum(i) + ")"}[i%3]
		}
		body += "}\nvar i = 0\nvar r = 0\nfor (i<" + vNum(n) + ";i=i+1){\nr = r+(c[i]*(i+1))\n}\n"
		want = X
		for i := 1; i < n; i++ {
			want = vOp("+", want, vOp("*", []vFrac{Y, I(i), vOp("+", X, I(i))}[i%3], I(i+1)))
		}
		expr = "r*c[" + vNum(n-1) + "]"
		want = vOp("*", want, []vFrac{Y, I(n - 1), vOp("+", X, I(n-1))}[(n-1)%3])
	case 6: // one product, used often
		body = "var p = x*y\nvar s = 0\n"
		for i := 1; i <= n; i++ {
			body += "s = s+((" + vNum(i) + "*y)*x)\nvar q" + vNum(i) + " = p-s\n"
		}
		want = vOp("*", vOp("*", X, Y), I(n*(n+1)/2))
		expr = "(s+q" + vNum(n) + ")*s"
		want = vOp("*", vOp("*", X, Y), want)
	case 7: // functions calling each other
		body = "var r = h0(x)\n"
		want = X
		for i := 0; i < n; i++ {
			if i < n-1 {
				rest += "func h" + vNum(i) + "(u){\nreturn u+h" + vNum(i+1) + "(u*" + vNum(i+2) + ")\n}\n"
			} else {
				rest += "func h" + vNum(i) + "(u){\nreturn u*y\n}\n"
			}
		}
		rest = ""
		for i := n - 1; i >= 0; i-- {
			if i == n-1 {
				body = "var h" + vNum(i) + " = func(u){\nreturn u*y\n}\n"
			} else {
				body += "var h" + vNum(i) + " = func(u){\nreturn u+h" + vNum(i+1) + "(u*" + vNum(i+2) + ")\n}\n"
			}
		}
		body += "var r = h0(x)\n"
		f, s := vB(1), vB(0)
		for i := 0; i < n-1; i++ {
			s = vAdd(s, f)
			f = vMul(f, vB(int64(i+2)))
		}
		want = vOp("+", vOp("*", vInt(s), X), vOp("*", vInt(f), vOp("*", X, Y)))
		expr = "r"
	case 8: // a long loop
		body = "var r = y\nvar i = 0\nfor (i<" + vNum(2*n) + ";i=i+1){\nr = (r*3)+(x+i)\n}\n"
		want = Y
		for i := 0; i < 2*n; i++ {
			want = vOp("+", vOp("*", want, I(3)), vOp("+", X, I(i)))
		}
		expr = "r*r"
		want = vOp("*", want, want)
	case 9: // many branches
		body = "var k = " + vNum(n-2) + "\nvar r = x\n"
		for i := 0; i < n; i++ {
			if i > 0 {
				body += "else "
			}
			body += "if k==" + vNum(i) + "{\nr = r*(y+" + vNum(i) + ")\n}"
		}
		body += "else{\nr = 0\n}\n"
		want = vOp("*", X, vOp("+", Y, I(n-2)))
		expr = "r"
	case 10: // deep brackets
		e := "x"
		want = X
		for i := 0; i < n; i++ {
			switch i % 3 {
			case 0:
				e, want = "("+e+")+"+vNum(i), vOp("+", want, I(i))
			case 1:
				e, want = "(("+e+"))*2", vOp("*", want, I(2))
			case 2:
				e, want = "y-("+e+")", vOp("-", Y, want)
			}
		}
		expr = "(" + e + ")*y"
		want = vOp("*", want, Y)
	case 11: // quotients by numbers
		body = "var r = x*y\n"
		want = vOp("*", X, Y)
		for i := 0; i < n; i++ {
			body += "r = (r/" + vNum(i+2) + ")+y\n"
			want = vOp("+", vOp("/", want, I(i+2)), Y)
			if i > 7 {
				break
			}
		}
		expr = "r*x"
		want = vOp("*", want, X)
	case 12: // many assertions
		body = "var z = x*y\n"
		for i := 0; i < n; i++ {
			body += "equal((z*" + vNum(i+1) + "),((x*" + vNum(i+1) + ")*y))\n"
		}
		expr = "z+" + vNum(n)
		want = vOp("+", vOp("*", X, Y), I(n))
	case 13: // deep recursion
		body = "var pow = func(k,b){\nif k==0{\nreturn b\n}\nreturn (x+k)+pow(k-1,(b*2))\n}\n"
		expr = "pow(" + vNum(n) + ",y)*y"
		want = vInt(vMul(y, new(big.Int).Lsh(vB(1), uint(n))))
		for i := 1; i <= n; i++ {
			want = vOp("+", want, vOp("+", X, I(i)))
		}
		want = vOp("*", want, Y)
	case 14: // sums of many different products, added and subtracted
		a, b := "1", "x"
		A, B := I(1), X
		for i := 0; i < n; i++ {
			body += "var p" + vNum(i) + " = (x+" + vNum(i) + ")*(y-" + vNum(i*i) + ")\n"
			p := vOp("*", vOp("+", X, I(i)), vOp("-", Y, I(i*i)))
			a, A = a+"+p"+vNum(i), vOp("+", A, p)
			b, B = "(p"+vNum(i)+"*"+vNum(i+2)+")+("+b+")", vOp("+", vOp("*", p, I(i+2)), B)
		}
		body += "var s = " + a + "\nvar t = " + b + "\nvar u = (s+t)-(2*s)\n"
		expr = "u*(s-p" + vNum(n-1) + ")"
		want = vOp("*", vOp("-", B, A), vOp("-", A, vOp("*", vOp("+", X, I(n-1)), vOp("-", Y, I((n-1)*(n-1))))))
	case 15: // numbers that grow beyond the words of the machine and the field
		body = "var k = 3\nvar r = x\n"
		k := vB(3)
		want = X
		for i := 0; i < n; i++ {
			body += "k = (k*k)+" + vNum(i) + "\nr = (r*" + vNum(7) + ")+(k*y)\n"
			k = vAdd(vMul(k, k), vB(int64(i)))
			want = vOp("+", vOp("*", want, I(7)), vOp("*", vInt(k), Y))
		}
		expr = "r*(x-k)"
		want = vOp("*", want, vOp("-", X, vInt(k)))
	}
	return
}

// vLongSize: one of the sizes around the powers of two and ten, up to max
func vLongSize(name string, max int) int {
	var l []int
	for _, n := range []int{4, 5, 7, 8, 9, 10, 11, 12, 16, 17, 20, 31, 33, 64, 65, 101} {
		if n <= max {
			l = append(l, n)
		}
	}
	return l[symChoose(name, len(l))]
}
