package utils

import "math/big"

// sizes far above those of the exhaustive checks, with a few symbolic values:
// no operation changes its meaning with the size of its operands

//symgo:run C02 quick p.max=33 time=100
//symgo:run C02 thorough p.max=65 time=400
func HC02_long() {
	pf := Field.PolynomialField
	max := symParam("max", 33)
	n := vSize("n", max)
	m := n
	if symChoose("same", 2) == 0 {
		m = 2 + n/3
	}
	a, b := vMix("a", n), vMix("b", m)
	if symChoose("swap", 2) == 1 {
		a, b = b, a
	}
	a0, b0 := vCopy(a), vCopy(b)
	switch symChoose("op", 5) {
	case 0:
		symAssert(vPolEq(pf.Mul(a, b), vPolMul(a0, b0)), "Mul of long operands")
	case 1:
		r, s := pf.Add(a, b), pf.Sub(a, b)
		for i := 0; i < n+1 || i < m+1; i++ {
			symAssert(vEq(vCoef(r, i), vAdd(vCoef(a0, i), vCoef(b0, i))), "Add of long operands")
			symAssert(vEq(vCoef(s, i), vSub(vCoef(a0, i), vCoef(b0, i))), "Sub of long operands")
		}
	case 2:
		x := vB(3)
		symAssert(vEq(pf.F.EvalPoly(a, x), vHorner(a0, x)), "EvalPoly of a long operand")
		x = new(big.Int).Sub(pf.F.Q, vB(2))
		symAssert(vEq(pf.F.EvalPoly(a, x), vHorner(a0, x)), "EvalPoly of a long operand")
	case 3:
		s := symBig("s", pf.F.Q)
		r := pf.MulScalar(a, s)
		symAssert(len(r) == len(a), "MulScalar length")
		for i := range r {
			symAssert(vEq(r[i], vMul(s, a0[i])), "MulScalar of a long operand")
		}
	case 4:
		var polys [][]*big.Int
		var w []*big.Int
		sum := vB(0)
		for i := 0; i < n; i++ {
			polys = append(polys, []*big.Int{vB(1), a[i]})
			w = append(w, vB(int64(i%3)))
			sum = vAdd(sum, vMul(a0[i], vB(int64(i%3))))
			if i >= len(a)-1 {
				break
			}
		}
		r := pf.AddPolynomials(pf.LinearCombine(polys, w))
		symAssert(vEq(vCoef(r, 1), sum), "linear combination of many polynomials")
	}
	symAssert(vSame(a, a0) && vSame(b, b0), "input changed")
}

func vHorner(a []*big.Int, x *big.Int) *big.Int {
	s := vB(0)
	for i := len(a) - 1; i >= 0; i-- {
		s = vAdd(vMul(s, x), a[i])
	}
	return s
}

//symgo:run C03 quick p.max=17 time=100
//symgo:run C03 thorough p.max=33 time=400
func HC03_long() {
	pf := Field.PolynomialField
	n := vSize("n", symParam("max", 17))
	m := []int{1, 2, n / 2, n - 1}[symChoose("m", 4)]
	a, b := vMix("a", n), vMix("b", m)
	for i := range b { // numbers only, the quotient is linear in a
		b[i] = vB(int64(3*i + 5))
	}
	if symChoose("zero", 2) == 1 && n-m > 2 {
		a[n-1], a[n-2] = vB(0), vB(0)
	}
	a0, b0 := vCopy(a), vCopy(b)
	q, r := pf.Div(a, b)
	symAssert(len(r) < m, "remainder degree not below divisor degree")
	qb := vPolMul(q, b0)
	for i := 0; i < len(qb) || i < n || i < len(r); i++ {
		symAssert(vEq(vCoef(a0, i), vAdd(vCoef(qb, i), vCoef(r, i))), "a is not q*b+r")
	}
	symAssert(vSame(a, a0) && vSame(b, b0), "input changed")
}

//symgo:run C04 quick p.max=17 p.smax=9 time=100
//symgo:run C04 thorough p.max=33 p.smax=9 time=400
func HC04_long() {
	pf := Field.PolynomialField
	n := vSize("n", symParam("max", 17))
	y := vMix("y", n)
	y0 := vCopy(y)
	var p []*big.Int
	if n <= symParam("smax", 9) && symChoose("sparse", 2) == 1 {
		p = pf.F.InterpolateSparseArray(NewSparseArrayFromArray(y), n).ToArray(n)
	} else {
		p = pf.LagrangeInterpolation(y)
	}
	symAssert(len(p) <= n, "degree not below n")
	for i := 0; i < n; i++ {
		symAssert(vMod(vHorner(p, vB(int64(i)))).Cmp(vMod(y0[i])) == 0, "interpolation misses a data point")
	}
	symAssert(vSame(y, y0), "input changed")
	d := pf.DomainPolynomial(n)
	symAssert(len(d) == n+1 && d[n].Cmp(vB(1)) == 0, "domain polynomial is not monic of degree n")
	for i := 0; i < n; i++ {
		symAssert(vHorner(d, vB(int64(i))).Sign() == 0, "domain polynomial does not vanish")
	}
}

// many points, few of which are not zero: any one value at any position
//
//symgo:run C04 quick p.max=25 time=100 steps=40000000
//symgo:run C04 thorough p.max=65 time=400 steps=200000000
func HC04_few() {
	pf := Field.PolynomialField
	sizes := []int{13, 22, 25, 34, 65}
	k := 0
	for k < len(sizes) && sizes[k] <= symParam("max", 25) {
		k++
	}
	n := sizes[symChoose("n", k)]
	y := make([]*big.Int, n)
	for i := range y {
		y[i] = vB(0)
	}
	at := []int{0, 1, n / 2, n - 2, n - 1}[symChoose("at", 5)]
	y[at] = symBig("y", pf.F.Q)
	var p []*big.Int
	if symChoose("sparse", 2) == 1 {
		p = pf.F.InterpolateSparseArray(NewSparseArrayFromArray(y), n).ToArray(n)
	} else {
		p = pf.LagrangeInterpolation(y)
	}
	symAssert(len(p) <= n, "degree not below n")
	for i := 0; i < n; i++ {
		symAssert(vMod(vHorner(p, vB(int64(i)))).Cmp(vMod(y[i])) == 0, "interpolation misses a data point")
	}
}

//symgo:run C06 quick p.max=17 time=100
//symgo:run C06 thorough p.max=33 time=400
func HC06_long() {
	f := Field.ArithmeticField
	n := vSize("n", symParam("max", 17))
	m := []int{n, 2 + n/3}[symChoose("m", 2)]
	a, b := vMix("a", n), vMix("b", m)
	ta, tb := c06Sparse(a), c06Sparse(b)
	switch symChoose("op", 4) {
	case 0:
		w, v := make([]*big.Int, n), make([]*big.Int, n)
		for i := range w {
			w[i], v[i] = vAdd(a[i], vCoef(b, i)), vSub(a[i], vCoef(b, i))
		}
		c06Is(f.AddToSparse(ta, tb), w, "Add of long operands")
		c06Is(f.SubToSparse(ta, tb), v, "Sub of long operands")
	case 1:
		if n > 9 {
			symStop()
		}
		for i := range b {
			b[i] = vB(int64(i + 1))
		}
		a[n/2] = vB(int64(n))
		ta, tb = c06Sparse(a), c06Sparse(b)
		c06Is(f.MulSparse(ta, tb), vPolMul(a, b), "Mul of long operands")
	case 2:
		for _, x := range []*big.Int{vB(0), vB(1), vB(3), new(big.Int).Sub(f.Q, vB(2))} {
			symAssert(vEq(f.EvalSparsePoly(ta, x), vHorner(a, x)), "evaluation of a long operand")
		}
	case 3:
		x := make([]*big.Int, n)
		s := vB(0)
		for i := range x {
			x[i] = vB(int64(i * 11))
			s = vAdd(s, vMul(x[i], a[i]))
		}
		symAssert(vEq(f.SparseScalarProduct(ta, x), s), "scalar product of long operands")
		symAssert(vEq(f.ScalarProduct(a, x), s), "scalar product of long operands")
	}
	c06Is(ta, a, "operand")
	c06Is(tb, b, "operand")
}

//symgo:run C07 quick p.max=9 time=100 steps=2000000
//symgo:run C07 thorough p.max=17 time=400 steps=10000000
func HC07_long() {
	f := Field.ArithmeticField
	n := vSize("n", symParam("max", 9))
	m := []int{1, 2, n / 2, n - 1}[symChoose("m", 4)]
	a, b := vMix("a", n), make([]*big.Int, m)
	for i := range b {
		b[i] = vB(int64(3*i + 5))
	}
	a[n/2] = vB(1)
	q, r := f.DivideSparse(c06Sparse(a), c06Sparse(b))
	symAssert(r.Size() == 0 || int(r.MaxPower()) < m-1, "remainder degree not below divisor degree")
	qb := vPolMul(q.ToArray(n+1), b)
	dr := r.ToArray(n + 1)
	for i := 0; i < n; i++ {
		symAssert(vEq(vCoef(a, i), vAdd(qb[i], dr[i])), "a is not q*b+r")
	}
}
