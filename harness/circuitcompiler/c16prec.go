package circuitcompiler

import "math/big"

// Known finding: without brackets an expression is grouped from the right and
// all operators bind equally, so x*y+1 is x*(y+1) and x-y-1 is x-(y-1)
//
//symgo:run C16 both time=60
func KC16_precedence() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	X, Y, one := vInt(x), vInt(y), vInt(vB(1))
	if symChoose("e", 2) == 0 {
		c16CheckK("x*y+1", vOp("+", vOp("*", X, Y), one), x, y)
	} else {
		c16CheckK("x-y-1", vOp("-", vOp("-", X, Y), one), x, y)
	}
}

func c16CheckK(e string, want vFrac, x, y *big.Int) {
	vExpect("equal("+e+",o)\nreturn\n", "", want, x, y)
}
