package utils

import "math/big"

// reference: a plain association list ordered by insertion
type c05Map struct {
	k []uint
	v []*big.Int
}

func (m *c05Map) get(k uint) *big.Int {
	for i := range m.k {
		if m.k[i] == k {
			return m.v[i]
		}
	}
	return nil
}

func (m *c05Map) del(k uint) {
	for i := range m.k {
		if m.k[i] == k {
			m.k = append(append([]uint{}, m.k[:i]...), m.k[i+1:]...)
			m.v = append(append([]*big.Int{}, m.v[:i]...), m.v[i+1:]...)
			return
		}
	}
}

func (m *c05Map) set(k uint, v *big.Int) {
	m.del(k)
	if v.Sign() != 0 {
		m.k = append(m.k, k)
		m.v = append(m.v, v)
	}
}

func (m *c05Map) sorted() (k []uint, v []*big.Int) {
	k, v = append([]uint{}, m.k...), append([]*big.Int{}, m.v...)
	for i := 1; i < len(k); i++ {
		for j := i; j > 0 && k[j] < k[j-1]; j-- {
			k[j], k[j-1] = k[j-1], k[j]
			v[j], v[j-1] = v[j-1], v[j]
		}
	}
	return
}

func (m *c05Map) clone() *c05Map {
	return &c05Map{append([]uint{}, m.k...), append([]*big.Int{}, m.v...)}
}

func c05Check(t *AvlTree, m *c05Map, bound uint, what string) {
	k, v := m.sorted()
	symAssert(t.Size() == len(k), what+": size")
	for x := uint(0); x < bound; x++ {
		w := m.get(x)
		symAssert(t.Has(x) == (w != nil), what+": membership")
		g, e := t.Get(x)
		if w == nil {
			symAssert(e != nil && g.Sign() == 0, what+": lookup of an absent key")
		} else {
			symAssert(e == nil && g.Cmp(w) == 0, what+": lookup")
		}
	}
	if len(k) > 0 {
		symAssert(t.MaxNode().Key() == k[len(k)-1] && t.MaxNode().Value().Cmp(v[len(k)-1]) == 0, what+": largest key")
		symAssert(t.MinNode().Key() == k[0] && t.MinNode().Value().Cmp(v[0]) == 0, what+": smallest key")
		symAssert(t.MaxPower() == k[len(k)-1], what+": MaxPower")
	} else {
		symAssert(t.MaxPower() == 0, what+": MaxPower of the empty array")
	}
	d := t.DecendingNodes()
	symAssert(len(d) == len(k), what+": DecendingNodes length")
	for i := range d {
		symAssert(d[i].Key == k[len(k)-1-i] && d[i].Value.Cmp(v[len(k)-1-i]) == 0, what+": DecendingNodes order")
	}
}

func c05CheckChan(t *AvlTree, m *c05Map, bound uint, what string) {
	k, v := m.sorted()
	i := 0
	for e := range t.ChannelNodes(true) {
		symAssert(i < len(k) && e.Key == k[i] && e.Value.Cmp(v[i]) == 0, what+": ascending traversal")
		i++
	}
	symAssert(i == len(k), what+": ascending traversal incomplete")
	for e := range t.ChannelNodes(false) {
		i--
		symAssert(i >= 0 && e.Key == k[i] && e.Value.Cmp(v[i]) == 0, what+": descending traversal")
	}
	symAssert(i == 0, what+": descending traversal incomplete")
	arr := t.ToArray(int(bound))
	for x := range arr {
		w := m.get(uint(x))
		if w == nil {
			w = bigZero
		}
		symAssert(arr[x].Cmp(w) == 0, what+": ToArray")
	}
}

// every history of p.ops operations over p.keys keys, values symbolic
//
//symgo:run C05 quick p.ops=4 p.keys=3 time=150
//symgo:run C05 thorough p.ops=5 p.keys=5 time=600
func HC05_history() {
	f := Field.ArithmeticField
	t := NewAvlTree()
	m := &c05Map{}
	ops := symParam("ops", 4)
	bound := uint(symParam("keys", 4))
	for i := 0; i < ops; i++ {
		c05Step(f, t, m, uint(symChoose("k", int(bound))), symChoose("op", 3))
	}
	c05Check(t, m, bound, "after the history")
	c05CheckChan(t, m, bound, "after the history")
	for _, v := range m.v {
		symObserve("v", v)
	}
}

func c05Step(f Fq, t *AvlTree, m *c05Map, k uint, op int) {
	switch op {
	case 0: // overwrite
		v := symBig("v", f.Q)
		t.Insert(k, v)
		m.set(k, v)
	case 1: // combine
		v := symBig("v", f.Q)
		t.Put(k, v, f.Add)
		o := m.get(k)
		if o == nil {
			o = vB(0)
		}
		m.set(k, vAdd(o, v))
	case 2:
		_, err := t.Remove(k)
		symAssert((err == nil) == (m.get(k) != nil), "Remove reports success wrongly")
		m.del(k)
	}
}

// larger trees: every insertion order of n keys, then removals in every order;
// the keys are symbolic, the comparisons decide the order
//
//symgo:run C05 quick p.n=5 p.del=2 time=150
//symgo:run C05 thorough p.n=6 p.del=3 time=600
func HC05_order() {
	n := symParam("n", 5)
	t := NewAvlTree()
	m := &c05Map{}
	bound := uint(n)
	left := make([]uint, n)
	for i := range left {
		left[i] = uint(i)
	}
	for len(left) > 0 {
		j := symChoose("i", len(left))
		k := left[j]
		left = append(append([]uint{}, left[:j]...), left[j+1:]...)
		v := vB(int64(k) + 1)
		t.Insert(k, v)
		m.set(k, v)
	}
	c05Check(t, m, bound, "after the insertions")
	for d := 0; d < symParam("del", 2); d++ {
		j := symChoose("d", len(m.k))
		k := m.k[j]
		t.Remove(k)
		m.del(k)
		c05Check(t, m, bound, "after a removal")
	}
	c05CheckChan(t, m, bound, "at the end")
}

// keys of any size
//
//symgo:run C05 quick p.n=3
//symgo:run C05 thorough p.n=4 time=300
func HC05_anykeys() {
	n := symParam("n", 3)
	t := NewAvlTree()
	m := &c05Map{}
	for i := 0; i < n; i++ {
		k := uint(symU64("k"))
		v := vB(int64(i) + 1)
		t.Insert(k, v)
		m.set(k, v)
	}
	k, v := m.sorted()
	d := t.DecendingNodes()
	symAssert(len(d) == len(k), "DecendingNodes length")
	for i := range d {
		symAssert(d[i].Key == k[len(k)-1-i] && d[i].Value.Cmp(v[len(k)-1-i]) == 0, "DecendingNodes order")
	}
	x := uint(symU64("x"))
	w := m.get(x)
	symAssert(t.Has(x) == (w != nil), "membership")
	symAssert(t.MaxPower() == k[len(k)-1], "largest key")
	symAssert(t.MinNode().Key() == k[0], "smallest key")
}

// overwriting is refused over a non-zero entry
//
//symgo:run C05 both
func HC05_refuse() {
	f := Field.ArithmeticField
	t := NewAvlTree()
	m := &c05Map{}
	for i := 0; i < 3; i++ {
		k := uint(symChoose("k", 3))
		v := symBig("v", f.Q)
		if symBool("negative") {
			v = new(big.Int).Sub(v, f.Q)
		}
		old := m.get(k)
		p := symPanics(func() { t.InsertNoOverwriteAllowed(k, v) })
		symAssert(p == (old != nil), "refusal of overwriting")
		if !p {
			m.set(k, v)
		}
	}
	c05Check(t, m, 3, "after the history")
}

//symgo:run C05 quick p.n=3
//symgo:run C05 thorough p.n=5 time=300
func HC05_clone() {
	f := Field.ArithmeticField
	n := symParam("n", 3)
	y := vVec("y", n)
	t := NewSparseArrayFromArray(y)
	m := &c05Map{}
	for i, v := range y {
		m.set(uint(i), new(big.Int).Set(v))
	}
	c05CheckChan(t, m, uint(n), "built from an array")
	c := t.Clone()
	mc := m.clone()
	k, op := uint(symChoose("k", n)), symChoose("op", 3)
	if symBool("which") {
		c05Step(f, t, m, k, op)
	} else {
		c05Step(f, c, mc, k, op)
	}
	c05Check(t, m, uint(n), "original")
	c05Check(c, mc, uint(n), "clone")
	symAssert(vSame(y, vVecAgain(y)), "source array changed")
}

func vVecAgain(y []*big.Int) []*big.Int { return y }

// larger trees: p.n keys in several orders of insertion, then a few removals
// and insertions of any of them
//
//symgo:run C05 quick p.n=12 p.ops=2 time=100
//symgo:run C05 thorough p.n=24 p.ops=2 time=600
func HC05_long() {
	f := Field.ArithmeticField
	n := symParam("n", 12)
	t := NewAvlTree()
	m := &c05Map{}
	order := symChoose("order", 5)
	for i := 0; i < n; i++ {
		k := i
		switch order {
		case 1:
			k = n - 1 - i
		case 2: // from both ends
			k = i / 2
			if i%2 == 1 {
				k = n - 1 - i/2
			}
		case 3: // from the middle
			k = n/2 + i/2
			if i%2 == 1 {
				k = n/2 - 1 - i/2
			}
		case 4:
			k = i * 7 % n
		}
		v := vB(int64(i) + 1)
		t.Insert(uint(k), v)
		m.set(uint(k), v)
	}
	c05Check(t, m, uint(n), "after the insertions")
	for i := 0; i < symParam("ops", 2); i++ {
		c05Step(f, t, m, uint(symChoose("k", n)), symChoose("op", 3))
	}
	// then one of two ways of taking the tree apart
	down := symBool("down")
	for i := 0; i < n-2; i++ {
		k := uint(i)
		if down {
			k = uint(n - 1 - i)
		}
		_, err := t.Remove(k)
		symAssert((err == nil) == (m.get(k) != nil), "Remove reports success wrongly")
		m.del(k)
		if i%4 == 0 {
			c05Check(t, m, uint(n), "while it is taken apart")
		}
	}
	c05Check(t, m, uint(n), "at the end")
	c05CheckChan(t, m, uint(n), "at the end")
}
