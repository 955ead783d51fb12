package utils

import "math/big"

func c07Check(f Fq, a, b []*big.Int) {
	db := -1
	for i, v := range b {
		if v.Sign() != 0 {
			db = i
		}
	}
	symAssume(db >= 0)
	ta, tb := c06Sparse(a), c06Sparse(b)
	q, r := f.DivideSparse(ta, tb)
	symAssert(r.Size() == 0 || int(r.MaxPower()) < db, "remainder degree not below divisor degree")
	n := len(a) + len(b)
	dq, dr := c04Get(q, n), c04Get(r, n)
	qb := vPolMul(dq, b)
	for i := 0; i < n; i++ {
		symAssert(vEq(vCoef(a, i), vAdd(qb[i], dr[i])), "a is not q*b+r")
	}
	c06Is(q, dq, "quotient")
	c06Is(r, dr, "remainder")
	c06Is(ta, a, "dividend")
	c06Is(tb, b, "divisor")
}

func c04Get(a *AvlTree, n int) []*big.Int {
	r := make([]*big.Int, n)
	for i := range r {
		v, e := a.Get(uint(i))
		if e != nil {
			v = vB(0)
		}
		r[i] = v
	}
	return r
}

//symgo:run C07 quick p.n=4 p.m=3 ff=8000 time=200 steps=400000
//symgo:run C07 thorough p.n=5 p.m=4 ff=20000 time=700 steps=1000000
func HC07_div() {
	n, m := symChoose("n", symParam("n", 4)+1), 1+symChoose("m", symParam("m", 3))
	c07Check(Field.ArithmeticField, vVec("a", n), vVec("b", m))
}

// a constant divisor
//
//symgo:run C07 quick p.n=3 time=100 steps=400000
//symgo:run C07 thorough p.n=5 time=300 steps=400000
func HC07_const() {
	n := symChoose("n", symParam("n", 3)+1)
	c07Check(Field.ArithmeticField, vVec("a", n), vVec("b", 1))
}

// the use in the prover: the domain polynomial divides
//
//symgo:run C07 quick p.n=3 time=100
//symgo:run C07 thorough p.n=5 time=300
func HC07_domain() {
	f, pf := Field.ArithmeticField, Field.PolynomialField
	d := pf.DomainPolynomial(1 + symChoose("n", symParam("n", 3)))
	h := vVec("h", 2)
	p := vPolMul(d, h)
	q, r := f.DivideSparse(c06Sparse(p), NewSparseArrayFromArray(d))
	symAssert(r.Size() == 0, "exact division leaves a remainder")
	c06Is(q, h, "quotient")
}
