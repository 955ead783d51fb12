package circuitcompiler

// A shared number or combination is used by two operations and once more: it
// has the same value every time
//
//symgo:run C15 quick time=100 p.u=8
//symgo:run C15 thorough time=400 p.u=12
func HC15_reuse() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	X, Y := vInt(x), vInt(y)
	three, two := vInt(vB(3)), vInt(vB(2))
	defs := []vExpr{
		{"3", three}, {"x", X}, {"x+2", vOp("+", X, two)}, {"2*x", vOp("*", two, X)}, {"x-y", vOp("-", X, Y)}, {"(2*x)-3", vOp("-", vOp("*", two, X), three)},
	}
	d := defs[symChoose("def", len(defs))]
	k := d.val
	use := []vExpr{
		{"y-k", vOp("-", Y, k)}, {"k*3", vOp("*", k, three)}, {"k*y", vOp("*", k, Y)}, {"k+k", vOp("+", k, k)},
		{"k/2", vOp("/", k, two)}, {"3-k", vOp("-", three, k)}, {"k*k", vOp("*", k, k)}, {"x/k", vOp("/", X, k)},
		{"k-k", vOp("-", k, k)}, {"k+y", vOp("+", k, Y)}, {"(0-k)*2", vOp("*", vOp("-", vInt(vB(0)), k), two)}, {"k-(k*2)", vOp("-", k, vOp("*", k, two))},
	}[:symParam("u", 8)]
	a, b := use[symChoose("u1", len(use))], use[symChoose("u2", len(use))]
	want := vOp("+", vOp("*", a.val, b.val), k)
	vExpect("var k = "+d.code+"\nvar a = "+a.code+"\nvar b = "+b.code+"\nequal(((a*b)+k),o)\nreturn\n", "", want, x, y)
}
