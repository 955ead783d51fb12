package bn256

import "math/big"

//symgo:run C09 both time=60 steps=60000000
func HC09_frobconstants() {
	q2 := new(big.Int).Sub(new(big.Int).Mul(P, P), vI(1))
	// the Frobenius constants
	p1 := new(big.Int).Sub(P, vI(1))
	pw := func(n, d int64, base *big.Int) v2 {
		return vXi.pow(new(big.Int).Div(new(big.Int).Mul(base, vI(n)), vI(d)))
	}
	symAssert(v2of(xiToPMinus1Over6).eq(pw(1, 6, p1)), "xiToPMinus1Over6")
	symAssert(v2of(xiToPMinus1Over3).eq(pw(1, 3, p1)), "xiToPMinus1Over3")
	symAssert(v2of(xiToPMinus1Over2).eq(pw(1, 2, p1)), "xiToPMinus1Over2")
	symAssert(v2of(xiTo2PMinus2Over3).eq(pw(2, 3, p1)), "xiTo2PMinus2Over3")
	symAssert((v2{vI(0), xiToPSquaredMinus1Over3}).eq(pw(1, 3, q2)), "xiToPSquaredMinus1Over3")
	symAssert((v2{vI(0), xiTo2PSquaredMinus2Over3}).eq(pw(2, 3, q2)), "xiTo2PSquaredMinus2Over3")
	symAssert((v2{vI(0), xiToPSquaredMinus1Over6}).eq(pw(1, 6, q2)), "xiToPSquaredMinus1Over6")
}
