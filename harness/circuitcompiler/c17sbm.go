package circuitcompiler

// scalarBaseMultiply: the wire is the abscissa of the multiple of the generator
//
//symgo:run C17 both time=200
func HC17_basemult() {
	x, y, o := symBig("x", vQ()), symBig("y", vQ()), symBig("o", vQ())
	es := vExprs(x, y, o)
	a, b := es[symChoose("a", 10)], es[symChoose("b", 10)]
	if a.code == "z" || b.code == "z" {
		symStop()
	}
	op := vPick("op", vOps[:3])
	c, ok := vCompile("func main(x,y,z){\nvar p = scalarBaseMultiply(" + a.code + ")\nvar s = scalarBaseMultiply(" + b.code +
		")\nequal(p" + op + "s,z)\nreturn\n}\nfunc f(x,y){\nreturn x*y\n}\n")
	symAssert(ok, "the compiler rejects a valid program")
	r := c.p.GatesToR1CS(c.gates, false)
	vAssign(c, r, "", x, y, o)
	pa, pb := vExpX(a.val.num), vExpX(b.val.num)
	symAssert(vIs(vOp(op, vInt(pa), vInt(pb)), o), "the constraints admit a wrong value")
}
