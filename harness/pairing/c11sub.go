package bn256

// the subgroup check of G2: on the curve, and Order times the point is infinity
var m11Inf bool
var m11Scalar bool

//symgo:model (*@/pairing.twistPoint).Mul m11Mul
func m11Mul(c, a *twistPoint, k *bigInt, pool *bnPool) *twistPoint {
	m11Scalar = k.Cmp(Order) == 0
	c.Set(a)
	if m11Inf {
		c.z.SetZero()
	} else {
		c.z.SetOne()
	}
	return c
}

//symgo:run C11 both group=sub time=60 samples=0
func HC11_subgroup() {
	x, y := s2("x", true), s2("y", true)
	m11Inf = symBool("inf")
	c := &twistPoint{x, y, g2of(v2c(0, 1)), g2of(v2c(0, 1))}
	vx, vy := v2of(x), v2of(y)
	on := vy.mul(vy).eq(vx.mul(vx).mul(vx).add(v2of(twistB)))
	if symNative() {
		r := newTwistPoint(nil).Mul(c, Order, nil)
		m11Inf = r.IsInfinity()
		symAssert(twistGen.IsOnCurve(), "the generator is rejected")
		n11sub()
	}
	got := c.IsOnCurve()
	symAssert(got == (on && m11Inf), "IsOnCurve is the curve equation and the order check")
	if on && !symNative() {
		symAssert(m11Scalar, "the order check uses another scalar")
	}
	symAssert(v2of(c.x).eq(vx) && v2of(c.y).eq(vy), "the point is changed")
	// xi*B = 3
	symAssert(v2of(twistB).mul(vXi).eq(v2c(0, 3)), "coefficient of the twist")
}

// n11sub: a point of the twist outside of the subgroup is rejected
func n11sub() {
	n := 0
	for i := int64(1); n < 3 && i < 200; i++ {
		x := v2c(0, i)
		t := x.mul(x).mul(x).add(v2of(twistB))
		// square root in gfP2, P = 3 mod 4
		e := newBig().Rsh(newBig().Sub(P, vI(3)), 2)
		a1 := t.pow(e)
		x0 := a1.mul(t)
		al := a1.mul(x0)
		var y v2
		if al.eq(v2c(0, -1)) {
			y = v2c(1, 0).mul(x0)
		} else {
			y = al.add(v2c(0, 1)).pow(newBig().Rsh(newBig().Sub(P, vI(1)), 1)).mul(x0)
		}
		if !y.mul(y).eq(t) {
			continue
		}
		n++
		c := &twistPoint{g2of(x), g2of(y), g2of(v2c(0, 1)), g2of(v2c(0, 1))}
		ord := newTwistPoint(nil).Mul(c, Order, nil).IsInfinity()
		symAssert(c.IsOnCurve() == ord, "a point outside of the subgroup is accepted")
	}
}
