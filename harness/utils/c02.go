package utils

import "math/big"

func c02Poly(name string, lo, hi int) []*big.Int {
	return vVec(name, lo+symChoose("n"+name, hi-lo+1))
}

//symgo:run C02 quick p.n=4
//symgo:run C02 thorough p.n=6
func HC02_ops() {
	pf := Field.PolynomialField
	n := symParam("n", 4)
	a, b := c02Poly("a", 0, n), c02Poly("b", 0, n)
	a0, b0 := vCopy(a), vCopy(b)
	switch symChoose("op", 5) {
	case 0:
		r := pf.Add(a, b)
		for i := 0; i < n+1; i++ {
			symAssert(vEq(vCoef(r, i), vAdd(vCoef(a0, i), vCoef(b0, i))), "Add coefficient wrong")
		}
		symObserve("r", r)
	case 1:
		r := pf.Sub(a, b)
		for i := 0; i < n+1; i++ {
			symAssert(vEq(vCoef(r, i), vSub(vCoef(a0, i), vCoef(b0, i))), "Sub coefficient wrong")
		}
		symObserve("r", r)
	case 2:
		symAssume(len(a) > 0 && len(b) > 0)
		r := pf.Mul(a, b)
		symAssert(vPolEq(r, vPolMul(a0, b0)), "Mul coefficient wrong")
		symObserve("r", r)
	case 3:
		s := symBig("s", pf.F.Q)
		s0 := new(big.Int).Set(s)
		r := pf.MulScalar(a, s)
		symAssert(len(r) == len(a), "MulScalar length")
		for i := range r {
			symAssert(vEq(r[i], vMul(s0, a0[i])), "MulScalar coefficient wrong")
		}
		symAssert(s.Cmp(s0) == 0, "operand changed")
		symObserve("r", r)
	case 4:
		s := vVec("s", 2)
		symAssume(len(a) > 0 && len(b) > 0)
		r := pf.LinearCombine([][]*big.Int{a, b}, s)
		symAssert(len(r) == 2, "LinearCombine length")
		symAssert(vPolEq(r[0], vPolMul(a0, s[:1])) && vPolEq(r[1], vPolMul(b0, s[1:])), "LinearCombine wrong")
		t := pf.AddPolynomials(r)
		symAssert(vPolEq(t, pf.Add(r[0], r[1])), "AddPolynomials wrong")
		symObserve("t", t)
	}
	symAssert(vSame(a, a0) && vSame(b, b0), "input changed")
	symAssert(bigZero.Sign() == 0, "shared zero changed")
}

// operands that are the same slice
//
//symgo:run C02 quick p.n=4
//symgo:run C02 thorough p.n=6
func HC02_alias() {
	pf := Field.PolynomialField
	a := c02Poly("a", 1, symParam("n", 4))
	a0 := vCopy(a)
	symAssert(vPolEq(pf.Mul(a, a), vPolMul(a0, a0)), "a*a wrong")
	symAssert(vPolEq(pf.Add(a, a), vPolMul(a0, []*big.Int{vB(2)})), "a+a wrong")
	symAssert(vPolEq(pf.Sub(a, a), nil), "a-a wrong")
	symAssert(vSame(a, a0), "input changed")
}

//symgo:run C02 quick p.n=4
//symgo:run C02 thorough p.n=7
func HC02_eval() {
	pf := Field.PolynomialField
	n := symParam("n", 4)
	a, b := c02Poly("a", 1, n), c02Poly("b", 1, n)
	a0, b0 := vCopy(a), vCopy(b)
	x := symBig("x", pf.F.Q)
	x0 := new(big.Int).Set(x)
	ea, eb := pf.F.EvalPoly(a, x), pf.F.EvalPoly(b, x)
	symAssert(vEq(ea, vEval(a0, x0)), "EvalPoly is not the sum of coefficients times powers")
	symAssert(vEq(pf.F.EvalPoly(pf.Mul(a, b), x), vMul(ea, eb)), "evaluation of a product")
	symAssert(vEq(pf.F.EvalPoly(pf.Add(a, b), x), vAdd(ea, eb)), "evaluation of a sum")
	symAssert(vEq(pf.F.EvalPoly(pf.Sub(a, b), x), vSub(ea, eb)), "evaluation of a difference")
	symAssert(vSame(a, a0) && vSame(b, b0) && x.Cmp(x0) == 0, "input changed")
	symObserve("ea", ea)
}

// coefficients that are not reduced
//
//symgo:run C02 both
func HC02_unreduced() {
	pf := Field.PolynomialField
	n, m := 1+symChoose("n", 2), 1+symChoose("m", 2)
	a, b := make([]*big.Int, n), make([]*big.Int, m)
	for i := range a {
		a[i] = symBigInt("a")
	}
	for i := range b {
		b[i] = symBigInt("b")
	}
	a0, b0 := vCopy(a), vCopy(b)
	symAssert(vPolEq(pf.Mul(a, b), vPolMul(a0, b0)), "Mul of unreduced coefficients")
	r := pf.Add(a, b)
	s := pf.Sub(a, b)
	for i := range r {
		symAssert(vEq(r[i], vAdd(vCoef(a0, i), vCoef(b0, i))), "Add of unreduced coefficients")
		symAssert(vEq(s[i], vSub(vCoef(a0, i), vCoef(b0, i))), "Sub of unreduced coefficients")
	}
	symAssert(vSame(a, a0) && vSame(b, b0), "input changed")
}

//symgo:run C02 both
func HC02_transpose() {
	pf := Field.PolynomialField
	n, m := 1+symChoose("n", 3), 1+symChoose("m", 3)
	a := make([][]*big.Int, n)
	for i := range a {
		a[i] = make([]*big.Int, m)
		for j := range a[i] {
			a[i][j] = symBig("a", pf.F.Q)
		}
	}
	t := Transpose(a)
	symAssert(len(t) == m, "Transpose size")
	for j := range t {
		symAssert(len(t[j]) == n, "Transpose size")
		for i := range t[j] {
			symAssert(t[j][i].Cmp(a[i][j]) == 0, "Transpose entry")
		}
	}
	z := true
	for _, x := range a[0] {
		if x.Sign() != 0 {
			z = false
		}
	}
	symAssert(IsZeroArray(a[0]) == z, "IsZeroArray")
	if n > 1 {
		symAssert(BigArraysEqual(a[0], a[1]) == vSame(a[0], a[1]), "BigArraysEqual")
	}
}
