package bn256

import "math/big"

// Scalar multiplication over an abstract group: a point is an integer multiple
// of one group element, kept in x (z=0: infinity). HC10_curveadd and the others
// show that Add and Double are the group operations.

//symgo:model (*@/pairing.curvePoint).Add m10Add
func m10Add(c, a, b *curvePoint, pool *bnPool) {
	v := new(big.Int)
	if a.z.Sign() != 0 {
		v.Add(v, a.x)
	}
	if b.z.Sign() != 0 {
		v.Add(v, b.x)
	}
	m10Put(c, v)
}

//symgo:model (*@/pairing.curvePoint).Double m10Double
func m10Double(c, a *curvePoint, pool *bnPool) {
	v := new(big.Int)
	if a.z.Sign() != 0 {
		v.Add(a.x, a.x)
	}
	m10Put(c, v)
}

func m10Put(c *curvePoint, v *big.Int) {
	c.x.Set(v)
	c.y.SetInt64(7)
	c.t.SetInt64(7)
	c.z.SetInt64(1)
	if v.Sign() == 0 {
		c.z.SetInt64(0)
	}
}

//symgo:model (*@/pairing.twistPoint).Add m10Add2
func m10Add2(c, a, b *twistPoint, pool *bnPool) {
	v := new(big.Int)
	if a.z.y.Sign() != 0 {
		v.Add(v, a.x.x)
	}
	if b.z.y.Sign() != 0 {
		v.Add(v, b.x.x)
	}
	m10Put2(c, v)
}

//symgo:model (*@/pairing.twistPoint).Double m10Double2
func m10Double2(c, a *twistPoint, pool *bnPool) {
	v := new(big.Int)
	if a.z.y.Sign() != 0 {
		v.Add(a.x.x, a.x.x)
	}
	m10Put2(c, v)
}

func m10Put2(c *twistPoint, v *big.Int) {
	c.x.x.Set(v)
	c.x.y.SetInt64(7)
	c.y.x.SetInt64(7)
	c.y.y.SetInt64(7)
	c.t.SetOne()
	c.z.x.SetInt64(0)
	c.z.y.SetInt64(1)
	if v.Sign() == 0 {
		c.z.y.SetInt64(0)
	}
}

// a point is negated by negating its multiple (HC10_curveother, HC10_twistother)
//
//symgo:model (*@/pairing.curvePoint).Negative m10Neg
func m10Neg(c, a *curvePoint) {
	v := new(big.Int)
	if a.z.Sign() != 0 {
		v.Neg(a.x)
	}
	m10Put(c, v)
}

//symgo:model (*@/pairing.twistPoint).Negative m10Neg2
func m10Neg2(c, a *twistPoint, pool *bnPool) {
	v := new(big.Int)
	if a.z.y.Sign() != 0 {
		v.Neg(a.x.x)
	}
	m10Put2(c, v)
}

// m10Factor: a scalar of the exported operations, it may be negative
func m10Factor() *big.Int {
	if symBool("negative") {
		k := vI(-int64(symChoose("k", 6)) - 1)
		if symBool("large") {
			k.Sub(k, new(big.Int).Sub(Order, vI(3)))
		}
		return k
	}
	far := symChoose("far", 4)
	if far == 0 {
		return symBigRange("k", vI(0), vI(7))
	}
	k := vI(int64(symChoose("k", 3)) + 3)
	switch far {
	case 1:
		k.Add(k, new(big.Int).Sub(Order, vI(4)))
	case 2:
		k.Add(k, new(big.Int).Lsh(vI(1), 256))
	case 3:
		k.Add(k, new(big.Int).Lsh(Order, 7))
	}
	return k
}

// m10Eq: both are the same multiple of an element of the groups
func m10Eq(c *curvePoint, v *big.Int) bool {
	if m10Is(c, v) {
		return true
	}
	w := new(big.Int)
	if c.z.Sign() != 0 {
		w.Set(c.x)
	}
	return w.Mod(w.Sub(w, v), Order).Sign() == 0
}

func m10Eq2(c *twistPoint, v *big.Int) bool {
	if m10Is2(c, v) {
		return true
	}
	w := new(big.Int)
	if !c.IsInfinity() {
		w.Set(c.x.x)
	}
	return w.Mod(w.Sub(w, v), Order).Sign() == 0
}

// m10Scalar: all scalars below 2^bits, and a symbolic window anywhere below
// 2^256
func m10Scalar(small bool) *big.Int {
	lo := symParam("bits", 8)
	if symBool("small") {
		return symBigRange("k", vI(0), new(big.Int).Sub(new(big.Int).Lsh(vI(1), uint(lo)), vI(1)))
	}
	win := symParam("win", 4)
	m := vI(int64(symChoose("m", 1<<uint(win))))
	j := symChoose("j", 256-win+1)
	base := vI(0)
	if small {
		return base.Lsh(m, uint(j))
	}
	switch symChoose("base", 3) {
	case 1:
		base.Sub(Order, vI(1))
		if j >= 64 {
			return base.Add(base, m)
		}
	case 2:
		base.Lsh(vI(1), 255)
	}
	return base.Add(base, new(big.Int).Lsh(m, uint(j)))
}

func m10Point(v *big.Int) *curvePoint {
	c := &curvePoint{vI(0), vI(7), vI(1), vI(7)}
	c.x.Set(v)
	return c
}

func m10Point2(v *big.Int) *twistPoint {
	return &twistPoint{&gfP2{new(big.Int).Set(v), vI(7)}, &gfP2{vI(7), vI(7)}, &gfP2{vI(0), vI(1)}, &gfP2{vI(0), vI(1)}}
}

func m10Is(c *curvePoint, v *big.Int) bool {
	if c.z.Sign() == 0 {
		return v.Sign() == 0
	}
	return c.x.Cmp(v) == 0
}

func m10Is2(c *twistPoint, v *big.Int) bool {
	if c.z.x.Sign() == 0 && c.z.y.Sign() == 0 {
		return v.Sign() == 0
	}
	return c.x.x.Cmp(v) == 0
}

// only the engine replaces Add and Double: natively the real group is used, and
// a multiple is recomputed by repeated addition of affine points
//
//symgo:run C10 quick group=mul time=100 p.bits=6 p.win=2 samples=0
//symgo:run C10 thorough group=mul time=300 p.bits=12 p.win=4 samples=0
func HC10_mul() {
	alias := symBool("alias")
	k := m10Scalar(alias)
	k0 := new(big.Int).Set(k)
	which := symChoose("which", 2)
	pool := &vPool{p: new(bnPool)}
	if symNative() {
		if which == 0 {
			n10Curve(k, alias)
		} else {
			n10Twist(k, alias)
		}
		return
	}
	// the group of integers: every cyclic group is an image of it
	g := vI(1)
	kg := k0
	if which == 0 {
		a := m10Point(g)
		c := m10Point(symBig("c", Order))
		if alias {
			c = a
		}
		symAssert(c.Mul(a, k, pool.p) == c, "the receiver is not returned")
		pool.spoil()
		symAssert(m10Is(c, kg), "scalar multiple wrong")
		if !alias {
			symAssert(m10Is(a, g), "operand changed")
		}
	} else {
		a := m10Point2(g)
		c := m10Point2(symBig("c", Order))
		if alias {
			c = a
		}
		symAssert(c.Mul(a, k, pool.p) == c, "the receiver is not returned")
		pool.spoil()
		symAssert(m10Is2(c, kg), "scalar multiple wrong")
		if !alias {
			symAssert(m10Is2(a, g), "operand changed")
		}
	}
	symAssert(k.Cmp(k0) == 0, "scalar changed")
}

// scalars of any length: one bit or two far above the order
//
//symgo:run C10 both group=mul time=100 samples=0
func HC10_mullong() {
	k := new(big.Int).Lsh(vI(1), []uint{257, 300, 512, 513, 600, 1025, 2049, 4100}[symChoose("top", 8)])
	if symBool("two") {
		k.Add(k, new(big.Int).Lsh(vI(1), []uint{0, 31, 64, 255, 256}[symChoose("bit", 5)]))
	}
	k0 := new(big.Int).Set(k)
	which := symChoose("which", 4)
	if symNative() {
		if which%2 == 0 {
			n10Curve(k, false)
		} else {
			n10Twist(k, false)
		}
		r := new(big.Int).Mod(k, Order)
		symAssert(string(new(G1).ScalarBaseMult(k).Marshal()) == string(new(G1).ScalarBaseMult(r).Marshal()), "scalar multiple wrong")
		symAssert(string(new(G2).ScalarBaseMult(k).Marshal()) == string(new(G2).ScalarBaseMult(r).Marshal()), "scalar multiple wrong")
		return
	}
	pool := new(bnPool)
	if which == 2 {
		e := new(G1).ScalarMult(&G1{m10Point(vI(1))}, k)
		symAssert(m10Eq(e.p, k0), "scalar multiple wrong")
	} else if which == 3 {
		e := new(G2).ScalarMult(&G2{m10Point2(vI(1))}, k)
		symAssert(m10Eq2(e.p, k0), "scalar multiple wrong")
	} else if which == 0 {
		c := m10Point(vI(3))
		c.Mul(m10Point(vI(1)), k, pool)
		symAssert(m10Is(c, k0), "scalar multiple wrong")
	} else {
		c := m10Point2(vI(3))
		c.Mul(m10Point2(vI(1)), k, pool)
		symAssert(m10Is2(c, k0), "scalar multiple wrong")
	}
	symAssert(k.Cmp(k0) == 0, "scalar changed")
}

// n10Curve: the same claim on the real curve: (k+1)a = ka + a and k(2a) = ka+ka
func n10Curve(k *big.Int, alias bool) {
	a := new(curvePoint)
	*a = *newCurvePoint(nil)
	a.Set(curveGen)
	ref := newCurvePoint(nil)
	ref.SetInfinity()
	for i := k.BitLen() - 1; i >= 0; i-- {
		n := newCurvePoint(nil)
		n.Double(ref, nil)
		ref = n
		if k.Bit(i) != 0 {
			n = newCurvePoint(nil)
			n.Add(ref, a, nil)
			ref = n
		}
	}
	c := newCurvePoint(nil)
	if alias {
		c = a
	}
	c.Mul(a, k, new(bnPool))
	ref.MakeAffine(nil)
	c.MakeAffine(nil)
	symAssert((c.z.Sign() == 0) == (ref.z.Sign() == 0), "scalar multiple wrong")
	symAssert(vM(c.x).Cmp(vM(ref.x)) == 0 && vM(c.y).Cmp(vM(ref.y)) == 0, "scalar multiple wrong")
}

func n10Twist(k *big.Int, alias bool) {
	a := newTwistPoint(nil)
	a.Set(twistGen)
	ref := newTwistPoint(nil)
	ref.SetInfinity()
	for i := k.BitLen() - 1; i >= 0; i-- {
		n := newTwistPoint(nil)
		n.Double(ref, nil)
		ref = n
		if k.Bit(i) != 0 {
			n = newTwistPoint(nil)
			n.Add(ref, a, nil)
			ref = n
		}
	}
	c := newTwistPoint(nil)
	if alias {
		c = a
	}
	c.Mul(a, k, new(bnPool))
	ref.MakeAffine(nil)
	c.MakeAffine(nil)
	symAssert(c.IsInfinity() == ref.IsInfinity(), "scalar multiple wrong")
	symAssert(v2of(c.x).eq(v2of(ref.x)) && v2of(c.y).eq(v2of(ref.y)), "scalar multiple wrong")
}

// the exported group operations
//
//symgo:run C10 both group=mul time=60 samples=0
func HC10_api() {
	if symNative() {
		n10API()
		return
	}
	op := symChoose("op", 4)
	k := vI(0)
	if op == 1 || op == 2 {
		k = m10Factor()
	}
	k0 := new(big.Int).Set(k)
	x, y := symBig("x", Order), symBig("y", Order)
	symAssume(x.Sign() > 0 && y.Sign() > 0)
	a, b := &G1{m10Point(x)}, &G1{m10Point(y)}
	e := new(G1)
	if symBool("used") {
		e.p = m10Point(symBig("e", Order))
	}
	switch symChoose("alias", 3) {
	case 1:
		e = a
	case 2:
		e = b
	}
	switch op {
	case 3:
		symAssert(e.Neg(a) == e && m10Is(e.p, new(big.Int).Neg(x)), "G1.Neg")
	case 0:
		symAssert(e.Add(a, b) == e && m10Is(e.p, new(big.Int).Add(x, y)), "G1.Add")
	case 1:
		symAssert(e.ScalarMult(a, k) == e && m10Eq(e.p, new(big.Int).Mul(x, k)), "G1.ScalarMult")
	case 2:
		symAssert(e.ScalarBaseMult(k) == e && m10Eq(e.p, k), "G1.ScalarBaseMult")
		symAssert(curveGen.x.Cmp(vI(1)) == 0 && curveGen.y.Cmp(vI(2)) == 0, "generator changed")
	}
	symAssert(k.Cmp(k0) == 0, "scalar changed")
	if e != a {
		symAssert(m10Is(a.p, x), "operand changed")
	}
	if e != b {
		symAssert(m10Is(b.p, y), "operand changed")
	}
}

//symgo:run C10 both group=mul time=60 samples=0
func HC10_api2() {
	if symNative() {
		n10API()
		return
	}
	op := symChoose("op", 3)
	k := vI(0)
	if op == 1 || op == 2 {
		k = m10Factor()
	}
	k0 := new(big.Int).Set(k)
	x, y := symBig("x", Order), symBig("y", Order)
	symAssume(x.Sign() > 0 && y.Sign() > 0)
	a, b := &G2{m10Point2(x)}, &G2{m10Point2(y)}
	e := new(G2)
	if symBool("used") {
		e.p = m10Point2(symBig("e", Order))
	}
	switch symChoose("alias", 3) {
	case 1:
		e = a
	case 2:
		e = b
	}
	g := new(big.Int).Set(twistGen.x.x)
	switch op {
	case 0:
		symAssert(e.Add(a, b) == e && m10Is2(e.p, new(big.Int).Add(x, y)), "G2.Add")
	case 1:
		symAssert(e.ScalarMult(a, k) == e && m10Eq2(e.p, new(big.Int).Mul(x, k)), "G2.ScalarMult")
	case 2:
		symAssert(e.ScalarBaseMult(k) == e && m10Eq2(e.p, new(big.Int).Mul(k, g)), "G2.ScalarBaseMult")
		symAssert(twistGen.x.x.Cmp(g) == 0, "generator changed")
	}
	symAssert(k.Cmp(k0) == 0, "scalar changed")
	if e != a {
		symAssert(m10Is2(a.p, x), "operand changed")
	}
	if e != b {
		symAssert(m10Is2(b.p, y), "operand changed")
	}
}

// n10API: the exported operations on small multiples of the generators
func n10API() {
	s1 := func(k int64) string { return new(G1).ScalarBaseMult(vI(k)).String() }
	s2 := func(k int64) string {
		e := new(G2).ScalarBaseMult(vI(k))
		e.p.MakeAffine(nil)
		e.p.x.Minimal()
		e.p.y.Minimal()
		return e.String()
	}
	str2 := func(e *G2) string {
		e.p.MakeAffine(nil)
		e.p.x.Minimal()
		e.p.y.Minimal()
		return e.String()
	}
	m1, m2 := map[string]int64{}, map[string]int64{}
	for i := int64(1); i < 30; i++ {
		m1[s1(i)] = i
		m2[s2(i)] = i
	}
	symAssert(len(m1) == 29 && len(m2) == 29, "multiples of the generator collide")
	for k := int64(-6); k < 7; k++ {
		for _, base := range []*big.Int{vI(0), new(big.Int).Lsh(vI(1), 256), new(big.Int).Lsh(Order, 7), Order, new(big.Int).Neg(Order)} {
			f := new(big.Int).Add(base, vI(k))
			if f.Sign() == 0 {
				continue
			}
			f0 := new(big.Int).Set(f)
			r := new(big.Int).Mod(f, Order)
			e, e2 := new(G1).ScalarBaseMult(f), new(G2).ScalarBaseMult(f)
			symAssert(e.String() == new(G1).ScalarBaseMult(r).String(), "G1.ScalarBaseMult")
			symAssert(str2(e2) == str2(new(G2).ScalarBaseMult(r)), "G2.ScalarBaseMult")
			symAssert(new(G1).ScalarMult(&G1{curveGen}, f).String() == e.String(), "G1.ScalarMult")
			symAssert(str2(new(G2).ScalarMult(&G2{twistGen}, f)) == str2(e2), "G2.ScalarMult")
			symAssert(f.Cmp(f0) == 0, "scalar changed")
			z := new(G1).Neg(e)
			symAssert(z.Add(z, e).p.IsInfinity(), "G1.Neg")
			e.Neg(e)
			symAssert(e.Add(e, new(G1).ScalarBaseMult(r)).p.IsInfinity(), "G1.Neg")
		}
	}
	for x := int64(1); x < 4; x++ {
		for y := int64(1); y < 4; y++ {
			for al := 0; al < 3; al++ {
				a, b, e := new(G1).ScalarBaseMult(vI(x)), new(G1).ScalarBaseMult(vI(y)), new(G1)
				a2, b2, e2 := new(G2).ScalarBaseMult(vI(x)), new(G2).ScalarBaseMult(vI(y)), new(G2)
				if al == 1 {
					e, e2 = a, a2
				} else if al == 2 {
					e, e2 = b, b2
				}
				e.Add(a, b)
				e2.Add(a2, b2)
				symAssert(m1[e.String()] == x+y, "G1.Add")
				symAssert(m2[str2(e2)] == x+y, "G2.Add")
				a, a2 = new(G1).ScalarBaseMult(vI(x)), new(G2).ScalarBaseMult(vI(x))
				if al == 1 {
					e, e2 = a, a2
				}
				e.ScalarMult(a, vI(y))
				e2.ScalarMult(a2, vI(y))
				symAssert(m1[e.String()] == x*y, "G1.ScalarMult")
				symAssert(m2[str2(e2)] == x*y, "G2.ScalarMult")
				a, a2 = new(G1).ScalarBaseMult(vI(-x)), new(G2).ScalarBaseMult(vI(-x))
				e, e2 = new(G1), new(G2)
				e.Add(a, new(G1).ScalarBaseMult(vI(x+y)))
				e2.Add(a2, new(G2).ScalarBaseMult(vI(x+y)))
				symAssert(m1[e.String()] == y, "G1.ScalarBaseMult")
				symAssert(m2[str2(e2)] == y, "G2.ScalarBaseMult")
				e.ScalarMult(a, vI(-y))
				e2.ScalarMult(a2, vI(-y))
				symAssert(m1[e.String()] == x*y, "G1.ScalarMult")
				symAssert(m2[str2(e2)] == x*y, "G2.ScalarMult")
			}
		}
	}
}
