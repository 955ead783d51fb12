package circuitcompiler

// scalarBaseMultiply yields the abscissa of the multiple of the generator
//
//symgo:run C16 both time=200
func HC16_basemult() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	type ex struct {
		code string
		val  vFrac
	}
	X, Y := vInt(x), vInt(y)
	es := []ex{{"x", X}, {"3*x", vOp("*", vInt(vB(3)), X)}, {"y", Y}, {"x+y", vOp("+", X, Y)}, {"x*y", vOp("*", X, Y)},
		{"x-y", vOp("-", X, Y)}, {"0", vInt(vB(0))}, {"5+x", vOp("+", vInt(vB(5)), X)}, {"7", vInt(vB(7))}}
	a, b := es[symChoose("a", len(es))], es[symChoose("b", len(es))]
	op := vPick("op", vOps)
	want := vOp(op, vInt(vExpX(a.val.num)), vInt(vExpX(b.val.num)))
	c16Prog("var p = scalarBaseMultiply("+a.code+")\nvar s = scalarBaseMultiply("+b.code+")", "p"+op+"s", "", want, x, y)
}
