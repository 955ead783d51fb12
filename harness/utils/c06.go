package utils

import "math/big"

//symgo:run C06 quick p.n=3 time=100
//symgo:run C06 thorough p.n=4 time=400
func HC06_addsub() {
	f := Field.ArithmeticField
	n := symParam("n", 3)
	a, b := vVec("a", n), vVec("b", n-1)
	ta, tb := c06Sparse(a), c06Sparse(b)
	var r *AvlTree
	w := make([]*big.Int, n)
	if symBool("sub") {
		r = f.SubToSparse(ta, tb)
		for i := range w {
			w[i] = vSub(vCoef(a, i), vCoef(b, i))
		}
	} else {
		r = f.AddToSparse(ta, tb)
		for i := range w {
			w[i] = vAdd(vCoef(a, i), vCoef(b, i))
		}
	}
	c06Is(r, w, "sum or difference")
	c06Is(ta, a, "left operand")
	c06Is(tb, b, "right operand")
}

//symgo:run C06 quick p.n=3 p.m=2 time=100
//symgo:run C06 thorough p.n=3 p.m=3 time=400
func HC06_mul() {
	f := Field.ArithmeticField
	a, b := vVec("a", symParam("n", 3)), vVec("b", symParam("m", 2))
	ta, tb := c06Sparse(a), c06Sparse(b)
	r := f.MulSparse(ta, tb)
	w := vPolMul(a, b)
	symAssert(vPolEq(Field.PolynomialField.Mul(a, b), w), "dense product")
	c06Is(r, w, "product")
	c06Is(ta, a, "left operand")
	c06Is(tb, b, "right operand")
}

// operand used twice
//
//symgo:run C06 both p.n=3 time=100
func HC06_alias() {
	f := Field.ArithmeticField
	a := vVec("a", symParam("n", 3))
	ta := c06Sparse(a)
	switch symChoose("op", 3) {
	case 0:
		c06Is(f.AddToSparse(ta, ta), vPolMul(a, []*big.Int{vB(2)}), "a+a")
	case 1:
		c06Is(f.SubToSparse(ta, ta), vPolMul(a, []*big.Int{vB(0)}), "a-a")
	case 2:
		c06Is(f.MulSparse(ta, ta), vPolMul(a, a), "a*a")
	}
	c06Is(ta, a, "operand")
}

//symgo:run C06 quick p.n=4 time=100
//symgo:run C06 thorough p.n=6 time=400
func HC06_scalar() {
	f := Field.ArithmeticField
	a := vVec("a", symParam("n", 4))
	s := symBig("s", f.Q)
	ta := c06Sparse(a)
	c06Is(f.MulSparseScalar(ta, s), vPolMul(a, []*big.Int{s}), "scaling")
	c06Is(ta, a, "operand")
}

//symgo:run C06 quick p.n=2 time=100
//symgo:run C06 thorough p.n=3 time=400
func HC06_combine() {
	f := Field.ArithmeticField
	n := symParam("n", 2)
	a, b, s := vVec("a", n), vVec("b", n), vVec("s", 2)
	ta, tb := c06Sparse(a), c06Sparse(b)
	l := f.LinearCombine([]*AvlTree{ta, tb}, s)
	symAssert(len(l) == 2, "LinearCombine length")
	wa, wb := vPolMul(a, s[:1]), vPolMul(b, s[1:])
	c06Is(l[0], wa, "LinearCombine")
	c06Is(l[1], wb, "LinearCombine")
	w := make([]*big.Int, n)
	for i := range w {
		w[i] = vAdd(wa[i], wb[i])
	}
	c06Is(f.AddPolynomials(l), w, "AddPolynomials")
	c06Is(ta, a, "operand")
	c06Is(tb, b, "operand")
}

// Combine scales entry i of the array (in place) by w[i]
//
//symgo:run C06 quick p.n=3 time=100
//symgo:run C06 thorough p.n=5 time=400
func HC06_pointwise() {
	f := Field.ArithmeticField
	n := symParam("n", 3)
	a, s := vVec("a", n), vVec("s", n)
	ta := c06Sparse(a)
	w := make([]*big.Int, n)
	for i := range w {
		w[i] = vMul(a[i], s[i])
	}
	c06Is(f.Combine(ta, s), w, "Combine")
}

//symgo:run C06 quick p.n=4 time=100
//symgo:run C06 thorough p.n=7 time=400
func HC06_scalarproduct() {
	f := Field.ArithmeticField
	n := symParam("n", 4)
	a, b := vVec("a", n), vVec("b", n)
	ta := c06Sparse(a)
	r := f.SparseScalarProduct(ta, b)
	w := vB(0)
	for i := range a {
		w = vAdd(w, vMul(a[i], b[i]))
	}
	symAssert(vEq(r, w), "scalar product wrong or not canonical")
	symAssert(f.ScalarProduct(a, b).Cmp(w) == 0, "dense scalar product")
	c06Is(ta, a, "operand")
}

//symgo:run C06 quick p.n=5 time=100
//symgo:run C06 thorough p.n=9 time=400
func HC06_eval() {
	f := Field.ArithmeticField
	a := vVec("a", symParam("n", 5))
	x := symBig("x", f.Q)
	x0 := new(big.Int).Set(x)
	ta := c06Sparse(a)
	r := f.EvalSparsePoly(ta, x)
	symAssert(vEq(r, vEval(a, x0)), "evaluation differs from the sum of terms")
	symAssert(vEq(f.EvalPoly(a, x), r), "dense evaluation differs")
	c06Is(ta, a, "operand")
	symAssert(x.Cmp(x0) == 0, "point changed")
}

// few terms of high degree
//
//symgo:run C06 quick p.terms=2 p.deg=12 time=100
//symgo:run C06 thorough p.terms=3 p.deg=24 time=400
func HC06_evalhigh() {
	f := Field.ArithmeticField
	x := symBig("x", f.Q)
	t := NewAvlTree()
	w := vB(0)
	k := -1
	d := symParam("deg", 12)
	for i := 0; i < symParam("terms", 2); i++ {
		if k+1 >= d {
			break
		}
		k = k + 1 + symChoose("k", d-k-1)
		c := symBig("c", f.Q)
		symAssume(c.Sign() != 0)
		t.Insert(uint(k), c)
		w = vAdd(w, vMul(c, vPow(x, k)))
	}
	symAssert(vEq(f.EvalSparsePoly(t, x), w), "evaluation differs from the sum of terms")
}

//symgo:run C06 both
func HC06_transpose() {
	n, m := 2, 2
	rows := make([]*AvlTree, n)
	v := make([][]*big.Int, n)
	for i := range rows {
		v[i] = vVec("v"+string(rune('a'+i)), m)
		rows[i] = c06Sparse(v[i])
	}
	t := TransposeSparse(rows, m)
	symAssert(len(t) == m, "transpose size")
	for j := range t {
		w := make([]*big.Int, n)
		for i := range w {
			w[i] = v[i][j]
		}
		c06Is(t[j], w, "transposed row")
	}
	for i := range rows {
		c06Is(rows[i], v[i], "operand")
	}
}

// what is done with a result does not reach the operands
//
//symgo:run C06 quick p.n=2 time=100
//symgo:run C06 thorough p.n=3 time=400
func HC06_independent() {
	f := Field.ArithmeticField
	n := symParam("n", 2)
	a, b := vVec("a", n), vVec("b", n)
	if symBool("bzero") {
		b = make([]*big.Int, n)
		for i := range b {
			b[i] = vB(0)
		}
	}
	s := symBig("s", f.Q)
	ta, tb := c06Sparse(a), c06Sparse(b)
	var r *AvlTree
	switch symChoose("op", 9) {
	case 0:
		r = f.AddToSparse(ta, tb)
	case 1:
		r = f.AddToSparse(tb, ta)
	case 2:
		r = f.SubToSparse(ta, tb)
	case 3:
		r = f.MulSparse(ta, c06Sparse([]*big.Int{vB(1)}))
	case 4:
		r = f.MulSparseScalar(ta, s)
	case 5:
		r = f.AddPolynomials([]*AvlTree{ta})
	case 6:
		r = f.AddPolynomials([]*AvlTree{ta, tb})
	case 7:
		r = f.LinearCombine([]*AvlTree{ta, tb}, []*big.Int{s, vB(1)})[symChoose("which", 2)]
	case 8:
		r = ta.Clone()
	}
	k := uint(symChoose("k", n+1))
	switch symChoose("change", 4) {
	case 0:
		r.Insert(k, symBig("v", f.Q))
	case 1:
		r.Put(k, symBig("v", f.Q), f.Add)
	case 2:
		r.Remove(k)
	case 3:
		f.Combine(r, vVec("w", n+1))
	}
	c06Is(ta, a, "left operand after a change of the result")
	c06Is(tb, b, "right operand after a change of the result")
}
