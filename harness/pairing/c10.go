package bn256

//symgo:run C10 both time=120 ff=20000
func HC10_curveadd() {
	pool := sPool()
	kind := symChoose("kind", 6) // general, equal, opposite, inf+b, a+inf, inf+inf
	a, va := sCP("a", kind == 3 || kind == 5)
	var b *curvePoint
	var vb vCP
	switch kind {
	case 1, 2:
		if kind == 2 {
			symAssume(va.y.Sign() != 0)
		}
		b, vb = sCPsame("b", va, kind == 2)
	default:
		b, vb = sCP("b", kind >= 4)
	}
	c, _ := sCP("c", false)
	switch symChoose("alias", 4) {
	case 1:
		c = a
	case 2:
		c = b
	case 3:
		// one operand given twice
		if kind != 1 && kind != 5 {
			return
		}
		b, vb = a, va
		if symBool("all") {
			c = a
		}
	}
	if kind == 0 {
		_, _, d := va.chord(vb)
		symAssume(d.Sign() != 0)
	}
	if kind == 1 {
		symAssume(va.y.Sign() != 0) // no point of order two
	}
	c.Add(a, b, pool.p)
	pool.spoil()
	switch kind {
	case 0:
		nx, ny, d := va.chord(vb)
		symAssert(vCPis(c, nx, ny, d), "sum is not on the chord")
		vZok(c.z, false)
	case 1:
		nx, ny, d := va.tangent()
		symAssert(vCPis(c, nx, ny, d), "sum of equal points is not the double")
		vZok(c.z, false)
	case 2, 5:
		vZok(c.z, true)
	case 3:
		symAssert(vCPkept(c, vb), "infinity is not neutral")
	case 4:
		symAssert(vCPkept(c, va), "infinity is not neutral")
	}
	if c != a {
		symAssert(vCPkept(a, va), "operand a changed")
	}
	if c != b {
		symAssert(vCPkept(b, vb), "operand b changed")
	}
}

//symgo:run C10 both time=100 ff=20000
func HC10_curvedouble() {
	pool := sPool()
	inf := symBool("inf")
	a, va := sCP("a", inf)
	c, _ := sCP("c", false)
	if symBool("alias") {
		c = a
	}
	if !inf {
		symAssume(va.y.Sign() != 0)
	}
	c.Double(a, pool.p)
	pool.spoil()
	vZok(c.z, inf)
	if !inf {
		nx, ny, d := va.tangent()
		symAssert(vCPis(c, nx, ny, d), "double is not on the tangent")
	}
	if c != a {
		symAssert(vCPkept(a, va), "operand changed")
	}
}

//symgo:run C10 both time=100 ff=20000
func HC10_curveother() {
	pool := sPool()
	inf := symBool("inf")
	a, va := sCP("a", inf)
	if symBool("z1") {
		if inf {
			return
		}
		a.z.SetInt64(1)
		va = vCPof(a, inf)
	}
	switch symChoose("op", 4) {
	case 3:
		e := &G1{a}
		x := e.X()
		if inf {
			symAssert(x.Sign() == 0 && a.IsInfinity(), "the x coordinate of infinity is not 0")
			return
		}
		symAssert(x.Sign() >= 0 && x.Cmp(P) < 0 && fMul(x, fMul(va.z, va.z)).Cmp(va.x) == 0, "X is not the affine x coordinate")
		symAssert(vCPis(a, va.x, va.y, va.z), "X changes the point")
	case 0:
		c, _ := sCP("c", false)
		if symBool("alias") {
			c = a
		}
		c.Negative(a)
		symAssert((c.z.Sign() == 0) == inf, "negation changes infinity")
		if !inf {
			symAssert(vCPis(c, va.x, fSub(vI(0), va.y), va.z), "Negative wrong")
		}
		if c != a {
			symAssert(vCPkept(a, va), "operand changed")
		}
	case 1:
		r := a.MakeAffine(pool.p)
		pool.spoil()
		symAssert(r == a, "the receiver is not returned")
		if inf {
			symAssert(a.z.Sign() == 0 && a.x.Sign() == 0 && a.y.Cmp(vI(1)) == 0, "affine infinity is not 0:1:0")
		} else {
			symAssert(a.z.Cmp(vI(1)) == 0, "z is not one")
			symAssert(vCPis(a, va.x, va.y, va.z), "MakeAffine changes the point")
		}
	case 2:
		if inf {
			a.SetInfinity()
			symAssert(a.IsInfinity(), "SetInfinity")
			return
		}
		a.z.SetInt64(1)
		symAssume(va.x.Sign() != 0 || va.y.Sign() != 0)
		on := fSub(fMul(va.y, va.y), fAdd(fMul(va.x, fMul(va.x, va.x)), vI(3))).Sign() == 0
		symAssert(a.IsOnCurve() == on, "IsOnCurve is not the curve equation")
	}
}
