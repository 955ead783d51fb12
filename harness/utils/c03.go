package utils

import "math/big"

//symgo:run C03 quick p.n=5 p.m=3 ff=8000
//symgo:run C03 thorough p.n=7 p.m=5 ff=30000 time=600
func HC03_div() {
	pf := Field.PolynomialField
	n, m := symChoose("n", symParam("n", 5)+1), 1+symChoose("m", symParam("m", 3))
	a, b := vVec("a", n), vVec("b", m)
	symAssume(b[m-1].Sign() != 0)
	a0, b0 := vCopy(a), vCopy(b)
	q, r := pf.Div(a, b)
	symAssert(len(r) < m, "remainder degree not below divisor degree")
	qb := vPolMul(q, b0)
	for i := 0; i < len(qb) || i < n || i < len(r); i++ {
		symAssert(vEq(vCoef(a0, i), vAdd(vCoef(qb, i), vCoef(r, i))), "a is not q*b+r")
	}
	for _, x := range q {
		symAssert(vEq(x, x), "quotient not canonical")
	}
	for _, x := range r {
		symAssert(vEq(x, x), "remainder not canonical")
	}
	symAssert(vSame(a, a0) && vSame(b, b0), "input changed")
	symAssert(bigZero.Sign() == 0, "shared zero changed")
	symObserve("q", q)
	symObserve("r", r)
}

// the coefficient vectors of a and b may share storage
//
//symgo:run C03 both
func HC03_alias() {
	pf := Field.PolynomialField
	a := vVec("a", 4)
	m := 1 + symChoose("m", 4)
	b := a[:m]
	symAssume(b[m-1].Sign() != 0)
	a0 := vCopy(a)
	q, r := pf.Div(a, b)
	symAssert(len(r) < m, "remainder degree not below divisor degree")
	qb := vPolMul(q, a0[:m])
	for i := 0; i < 4; i++ {
		symAssert(vEq(a0[i], vAdd(vCoef(qb, i), vCoef(r, i))), "a is not q*b+r")
	}
	symAssert(vSame(a, a0), "input changed")
}

var _ = big.NewInt
