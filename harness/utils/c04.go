package utils

import "math/big"

func c04Dense(a *AvlTree, n int) []*big.Int {
	r := make([]*big.Int, n)
	for i := range r {
		v, e := a.Get(uint(i))
		if e != nil || v == nil {
			v = vB(0)
		}
		r[i] = v
	}
	return r
}

//symgo:run C04 quick p.n=6
//symgo:run C04 thorough p.n=11
func HC04_dense() {
	pf := Field.PolynomialField
	n := 1 + symChoose("n", symParam("n", 6))
	y := vVec("y", n)
	y0 := vCopy(y)
	p := pf.LagrangeInterpolation(y)
	symAssert(len(p) <= n, "degree not below n")
	for i := 0; i < n; i++ {
		symAssert(vEq(vEval(p, vB(int64(i))), y0[i]), "interpolation misses a data point")
	}
	for _, c := range p {
		symAssert(vEq(c, c), "coefficient not canonical")
	}
	symAssert(vSame(y, y0), "input changed")
	symObserve("p", p)
}

//symgo:run C04 quick p.n=5
//symgo:run C04 thorough p.n=9
func HC04_sparse() {
	pf := Field.PolynomialField
	n := 1 + symChoose("n", symParam("n", 5))
	y := vVec("y", n)
	y0 := vCopy(y)
	p := pf.LagrangeInterpolation(y)
	sp := pf.F.InterpolateSparseArray(NewSparseArrayFromArray(y), n)
	symAssert(vSame(c04Dense(sp, n), p), "sparse and dense interpolation differ")
	symAssert(vSame(y, y0), "input changed")
}

// results do not depend on what was interpolated before
//
//symgo:run C04 quick p.n=3
//symgo:run C04 thorough p.n=5
func HC04_history() {
	pf := Field.PolynomialField
	m := symParam("n", 3)
	n1, n2 := 1+symChoose("n1", m), 1+symChoose("n2", m)
	y1, y2 := vVec("y", n1), vVec("z", n2)
	y1c, y2c := vCopy(y1), vCopy(y2)
	var p []*big.Int
	if symBool("sparse1") {
		pf.F.InterpolateSparseArray(NewSparseArrayFromArray(y1), n1)
	} else {
		pf.LagrangeInterpolation(y1)
	}
	if symBool("sparse2") {
		p = c04Dense(pf.F.InterpolateSparseArray(NewSparseArrayFromArray(y2), n2), n2)
	} else {
		p = pf.LagrangeInterpolation(y2)
	}
	for i := 0; i < n2; i++ {
		symAssert(vEq(vEval(p, vB(int64(i))), y2c[i]), "interpolation depends on earlier interpolations")
	}
	symAssert(vSame(y1, y1c) && vSame(y2, y2c), "input changed")
	symObserve("p", p)
}

//symgo:run C04 quick p.n=6
//symgo:run C04 thorough p.n=12
func HC04_domain() {
	pf := Field.PolynomialField
	n := 1 + symChoose("n", symParam("n", 6))
	d := pf.DomainPolynomial(n)
	symAssert(len(d) == n+1 && d[n].Cmp(vB(1)) == 0, "domain polynomial not monic of degree n")
	x := symBig("x", pf.F.Q)
	inside := false
	for i := 0; i < n; i++ {
		if x.Cmp(vB(int64(i))) == 0 {
			inside = true
		}
	}
	symAssert((vEval(d, x).Sign() == 0) == inside, "domain polynomial vanishes elsewhere or not on 0..n-1")
}

// NewPolZeroAt is the interpolation of height at one point and zero elsewhere
//
//symgo:run C04 quick p.n=4
//symgo:run C04 thorough p.n=8
func HC04_zeroat() {
	pf := Field.PolynomialField
	n := 1 + symChoose("n", symParam("n", 4))
	k := symChoose("k", n)
	h := symBig("h", pf.F.Q)
	p := pf.NewPolZeroAt(k, n, h)
	for i := 0; i < n; i++ {
		w := vB(0)
		if i == k {
			w = h
		}
		symAssert(vEq(vEval(p, vB(int64(i))), w), "NewPolZeroAt wrong value")
	}
}

// what is done with a result does not influence later interpolations
//
//symgo:run C04 quick p.n=3
//symgo:run C04 thorough p.n=4
func HC04_resultused() {
	pf := Field.PolynomialField
	n := 1 + symChoose("n", symParam("n", 3))
	y := vVec("y", n)
	y0 := vCopy(y)
	w := vVec("w", n)
	if symBool("sparse1") {
		p := pf.F.InterpolateSparseArray(NewSparseArrayFromArray(y), n)
		switch symChoose("use", 3) {
		case 0:
			pf.F.Combine(p, w)
		case 1:
			for i := range w {
				p.Put(uint(i), w[i], pf.F.Add)
			}
		case 2:
			for i := range w {
				p.Insert(uint(i), w[i])
			}
		}
	} else {
		p := pf.LagrangeInterpolation(y)
		for i := range p {
			p[i] = w[i]
		}
	}
	var p []*big.Int
	if symBool("sparse2") {
		p = c04Dense(pf.F.InterpolateSparseArray(NewSparseArrayFromArray(y0), n), n)
	} else {
		p = pf.LagrangeInterpolation(y0)
	}
	for i := 0; i < n; i++ {
		symAssert(vEq(vEval(p, vB(int64(i))), y0[i]), "interpolation depends on what was done with an earlier result")
	}
}
