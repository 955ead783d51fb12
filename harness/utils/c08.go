package utils

import "math/big"

// Every schedule (up to the preemption budget) of the goroutines that walk the
// trees; memory accesses are checked with vector clocks.

func c08End() {
	symAssert(symGoroutines() == 0, "a goroutine does not finish")
}

//symgo:run C08 quick sched=6 p.n=3 time=60
//symgo:run C08 thorough sched=12 p.n=4 time=200
func HC08_walk() {
	n := 1 + symChoose("n", symParam("n", 3))
	a := make([]*big.Int, n)
	for i := range a {
		a[i] = vB(int64(i + 1))
	}
	t := c08Any(a)
	asc := symBool("asc")
	c08Walk(t, n, asc)
	c08End()
}

// c08Any: entries inserted in any order
func c08Any(a []*big.Int) *AvlTree {
	t := NewAvlTree()
	left := make([]uint, len(a))
	for i := range left {
		left[i] = uint(i)
	}
	for len(left) > 0 {
		j := symChoose("i", len(left))
		k := left[j]
		left = append(append([]uint{}, left[:j]...), left[j+1:]...)
		t.Insert(k, new(big.Int).Set(a[k]))
	}
	return t
}

func c08Walk(t *AvlTree, n int, asc bool) {
	c := 0
	for e := range t.ChannelNodes(asc) {
		k := c
		if !asc {
			k = n - 1 - c
		}
		symAssert(e.Key == uint(k) && e.Value.Cmp(vB(int64(k+1))) == 0, "entry out of order or missing")
		c++
	}
	symAssert(c == n, "not every entry visited once")
}

//symgo:run C08 quick sched=4 p.n=3 time=60
//symgo:run C08 thorough sched=10 p.n=4 time=200
func HC08_clone() {
	n := symParam("n", 3)
	t := NewAvlTree()
	a := make([]*big.Int, n)
	for i := range a {
		a[i] = vB(int64(i + 1))
		t.Insert(uint(i), a[i])
	}
	c06Is(t.Clone(), a, "clone")
	c08End()
}

//symgo:run C08 quick sched=2 p.n=2 time=60
//symgo:run C08 thorough sched=5 p.n=3 time=200
func HC08_scale() {
	f := Field.ArithmeticField
	n := 1 + symChoose("n", symParam("n", 2))
	a := vVec("a", n)
	s := symBig("s", f.Q)
	ta := c06Sparse(a)
	c06Is(f.MulSparseScalar(ta, s), vPolMul(a, []*big.Int{s}), "scaling")
	c06Is(ta, a, "operand")
	c08End()
}

//symgo:run C08 quick sched=3 p.n=3 time=60
//symgo:run C08 thorough sched=6 p.n=4 time=200
func HC08_pointwise() {
	f := Field.ArithmeticField
	n := 1 + symChoose("n", symParam("n", 3))
	a, s := vVec("a", n), vVec("s", n)
	ta := c06Sparse(a)
	w := make([]*big.Int, n)
	for i := range w {
		w[i] = vMul(a[i], s[i])
	}
	c06Is(f.Combine(ta, s), w, "Combine")
	c08End()
}

//symgo:run C08 quick sched=2 p.n=2 time=60
//symgo:run C08 thorough sched=4 p.n=2 time=200
func HC08_addsub() {
	f := Field.ArithmeticField
	n := symParam("n", 2)
	a, b := vVec("a", n), vVec("b", n)
	ta, tb := c06Sparse(a), c06Sparse(b)
	sub := symBool("sub")
	if symBool("same") {
		b, tb = a, ta
	}
	w := make([]*big.Int, n)
	for i := range w {
		if sub {
			w[i] = vSub(a[i], b[i])
		} else {
			w[i] = vAdd(a[i], b[i])
		}
	}
	if sub {
		c06Is(f.SubToSparse(ta, tb), w, "difference")
	} else {
		c06Is(f.AddToSparse(ta, tb), w, "sum")
	}
	c06Is(ta, a, "operand")
	c08End()
}

//symgo:run C08 quick sched=1 time=60
//symgo:run C08 thorough sched=2 time=200
func HC08_mul() {
	f := Field.ArithmeticField
	a, b := vVec("a", 2), vVec("b", 2)
	ta, tb := c06Sparse(a), c06Sparse(b)
	if symBool("same") {
		b, tb = a, ta
	}
	c06Is(f.MulSparse(ta, tb), vPolMul(a, b), "product")
	c08End()
}

//symgo:run C08 quick sched=2 time=60
//symgo:run C08 thorough sched=4 time=200
func HC08_evaldot() {
	f := Field.ArithmeticField
	a, b := vVec("a", 3), vVec("b", 3)
	x := symBig("x", f.Q)
	ta := c06Sparse(a)
	if symBool("dot") {
		w := vB(0)
		for i := range a {
			w = vAdd(w, vMul(a[i], b[i]))
		}
		symAssert(vMod(f.SparseScalarProduct(ta, b)).Cmp(w) == 0, "scalar product")
	} else {
		symAssert(vEq(f.EvalSparsePoly(ta, x), vEval(a, x)), "evaluation")
	}
	c08End()
}

//symgo:run C08 quick sched=2 time=60
//symgo:run C08 thorough sched=4 time=200
func HC08_transpose() {
	a, b := vVec("a", 2), vVec("b", 2)
	t := TransposeSparse([]*AvlTree{c06Sparse(a), c06Sparse(b)}, 2)
	c06Is(t[0], []*big.Int{a[0], b[0]}, "row 0")
	c06Is(t[1], []*big.Int{a[1], b[1]}, "row 1")
	c08End()
}

// sizes beyond those above: the race detector on a fixed fair schedule, all
// tree shapes that insertion orders give
//
//symgo:run C08 quick p.n=4 time=60
//symgo:run C08 thorough p.n=5 time=200
func HC08_shapes() {
	f := Field.ArithmeticField
	n := symParam("n", 4)
	a, s := make([]*big.Int, n), make([]*big.Int, n)
	for i := range a {
		a[i] = vB(int64(i + 1))
		s[i] = vB(int64(symChoose("zero", 2)))
	}
	t := c08Any(a)
	c08Walk(t, n, true)
	c08Walk(t, n, false)
	w := make([]*big.Int, n)
	for i := range w {
		w[i] = vMul(a[i], s[i])
	}
	c06Is(t.Clone(), a, "clone")
	c06Is(f.SubToSparse(t, c06Sparse(a)), make0(n), "difference")
	c06Is(f.MulSparseScalar(t, s[0]), vPolMul(a, s[:1]), "scaling")
	c06Is(f.Combine(t, s), w, "Combine")
	c08End()
}

func make0(n int) []*big.Int {
	r := make([]*big.Int, n)
	for i := range r {
		r[i] = vB(0)
	}
	return r
}

// large trees: the race detector on a fixed fair schedule, entries inserted in
// ascending, descending or mixed order
//
//symgo:run C08 quick time=100 p.n=5 steps=20000000
//symgo:run C08 thorough time=300 p.n=7 steps=60000000
func HC08_long() {
	f := Field.ArithmeticField
	n := []int{9, 17, 34, 65, 130, 260, 520}[symChoose("size", symParam("n", 5))]
	order := symChoose("order", 3)
	a, s := make([]*big.Int, n), make([]*big.Int, n)
	for i := range a {
		a[i] = vB(int64(i + 1))
		s[i] = vB(int64(i % 3))
	}
	t := NewAvlTree()
	for i := range a {
		k := i
		switch order {
		case 1:
			k = n - 1 - i
		case 2:
			// 7 divides none of the sizes
			k = i * 7 % n
		}
		t.Insert(uint(k), new(big.Int).Set(a[k]))
	}
	switch symChoose("op", 6) {
	case 0:
		c08Walk(t, n, true)
	case 1:
		c08Walk(t, n, false)
	case 2:
		c06Is(t.Clone(), a, "clone")
	case 3:
		c06Is(f.SubToSparse(t, t.Clone()), make0(n), "difference")
	case 4:
		c06Is(f.MulSparseScalar(t, s[2]), vPolMul(a, s[2:3]), "scaling")
	case 5:
		w := make([]*big.Int, n)
		for i := range w {
			w[i] = vMul(a[i], s[i])
		}
		c06Is(f.Combine(t, s), w, "Combine")
	}
	c08End()
}
