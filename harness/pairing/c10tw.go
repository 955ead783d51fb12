package bn256

// one coordinate of the operands at a time is any integer; reduced, random or
// special ones are used for the rest to keep the polynomials small
//
//symgo:run C10 both time=150 ff=60000
func HC10_twistadd() {
	pool := sPool()
	kind := symChoose("kind", 6)
	a, va := sTP("a", kind == 3 || kind == 5)
	var b *twistPoint
	var vb vTP
	switch kind {
	case 1, 2:
		b, vb = sTPsame("b", va, kind == 2)
	default:
		b, vb = sTP("b", kind >= 4)
	}
	c, _ := sTP("c", true)
	switch symChoose("alias", 4) {
	case 1:
		c = a
	case 2:
		c = b
	case 3:
		if kind != 1 && kind != 5 {
			return
		}
		b, vb = a, va
		if symBool("all") {
			c = a
		}
	}
	if kind == 0 {
		za2, zb2 := va.z.mul(va.z), vb.z.mul(vb.z)
		h := vb.x.mul(za2).sub(va.x.mul(zb2))
		symAssume(!h.zero())
	}
	if kind == 1 || kind == 2 {
		symAssume(!va.y.zero())
	}
	if kind == 2 {
		// k is a unit: the ordinates differ
		za3, zb3 := va.z.mul(va.z).mul(va.z), vb.z.mul(vb.z).mul(vb.z)
		symAssume(!vb.y.mul(za3).eq(va.y.mul(zb3)))
	}
	c.Add(a, b, pool.p)
	pool.spoil()
	switch kind {
	case 0:
		nx, ny, d := va.chord(vb)
		vTPis(c, nx, ny, d)
		vZ2ok(c.z, false)
	case 1:
		nx, ny, d := va.tangent()
		vTPis(c, nx, ny, d)
		vZ2ok(c.z, false)
	case 2, 5:
		vZ2ok(c.z, true)
	case 3:
		symAssert(vTPkept(c, vb), "infinity is not neutral")
	case 4:
		symAssert(vTPkept(c, va), "infinity is not neutral")
	}
	if c != a {
		symAssert(vTPkept(a, va), "operand a changed")
	}
	if c != b {
		symAssert(vTPkept(b, vb), "operand b changed")
	}
}

//symgo:run C10 both time=100 ff=60000
func HC10_twistdouble() {
	pool := sPool()
	inf := symBool("inf")
	a, va := sTP("a", inf)
	c, _ := sTP("c", true)
	if symBool("alias") {
		c = a
	}
	c.Double(a, pool.p)
	pool.spoil()
	vZ2ok(c.z, inf)
	if !inf {
		nx, ny, d := va.tangent()
		vTPis(c, nx, ny, d)
		symAssert(v2of(c.z).eq(d), "z of the double")
	}
	if c != a {
		symAssert(vTPkept(a, va), "operand changed")
	}
}

//symgo:run C10 both time=60 ff=20000
func HC10_twistother() {
	pool := sPool()
	inf := symBool("inf")
	a, va := sTP("a", inf)
	if symBool("z1") {
		if inf {
			return
		}
		a.z.SetOne()
		va = vTPof(a, inf)
	}
	switch symChoose("op", 2) {
	case 0:
		c, _ := sTP("c", true)
		if symBool("alias") {
			c = a
		}
		c.Negative(a, pool.p)
		pool.spoil()
		symAssert(c.IsInfinity() == inf, "negation changes infinity")
		if !inf {
			vTPis(c, va.x, va.y.neg(), va.z)
		}
		if c != a {
			symAssert(vTPkept(a, va), "operand changed")
		}
	case 1:
		if !inf {
			// a nonzero element has a nonzero norm: see HC09_constants
			symAssume(fAdd(fMul(va.z.x, va.z.x), fMul(va.z.y, va.z.y)).Sign() != 0)
		}
		r := a.MakeAffine(pool.p)
		pool.spoil()
		symAssert(r == a, "the receiver is not returned")
		if inf {
			symAssert(a.IsInfinity() && v2of(a.x).zero() && v2of(a.y).eq(v2c(0, 1)), "affine infinity is not 0:1:0")
		} else {
			symAssert(v2of(a.z).eq(v2c(0, 1)), "z is not one")
			vTPis(a, va.x, va.y, va.z)
		}
	}
}
