package bn256

import "math/big"

// a curve point in Jacobian form: any representation the code can hold
type vCP struct {
	x, y, z *big.Int // values modulo P
	inf     bool
}

func sZ(n string) *big.Int {
	z := symBigRange(n, vI(1), new(big.Int).Sub(new(big.Int).Lsh(P, 1), vI(1)))
	symAssume(vM(z).Sign() != 0)
	return z
}

func sCP(n string, inf bool) (*curvePoint, vCP) {
	c := &curvePoint{symBigInt(n + "x"), symBigInt(n + "y"), vI(0), symBigInt(n + "t")}
	if !inf {
		c.z = sZ(n + "z")
	}
	return c, vCPof(c, inf)
}

func vCPof(c *curvePoint, inf bool) vCP { return vCP{vM(c.x), vM(c.y), vM(c.z), inf} }

// sCPsame returns another representation of (sign)*a
func sCPsame(n string, a vCP, neg bool) (*curvePoint, vCP) {
	k := symBig(n+"k", P)
	symAssume(k.Sign() != 0)
	k2 := fMul(k, k)
	c := &curvePoint{fMul(a.x, k2), fMul(a.y, fMul(k2, k)), fMul(a.z, k), symBigInt(n + "t")}
	if neg {
		c.y.Neg(c.y)
	}
	if symBool(n + "shift") {
		c.x.Sub(c.x, P)
		c.y.Add(c.y, P)
		c.y.Add(c.y, P)
	}
	return c, vCPof(c, false)
}

// vCPis: c holds the affine point (nx/d^2, ny/d^3), d not zero
func vCPis(c *curvePoint, nx, ny, d *big.Int) bool {
	z := vM(c.z)
	z2, d2 := fMul(z, z), fMul(d, d)
	return fMul(vM(c.x), d2).Cmp(fMul(nx, z2)) == 0 && fMul(vM(c.y), fMul(d2, d)).Cmp(fMul(ny, fMul(z2, z))) == 0
}

// vAdd gives the chord law, vDbl the tangent law
func (a vCP) chord(b vCP) (nx, ny, d *big.Int) {
	za2, zb2 := fMul(a.z, a.z), fMul(b.z, b.z)
	u1, u2 := fMul(a.x, zb2), fMul(b.x, za2)
	s1, s2 := fMul(a.y, fMul(zb2, b.z)), fMul(b.y, fMul(za2, a.z))
	h, r := fSub(u2, u1), fSub(s2, s1)
	h2 := fMul(h, h)
	nx = fSub(fMul(r, r), fMul(h2, fAdd(u1, u2)))
	ny = fSub(fMul(r, fSub(fMul(u1, h2), nx)), fMul(s1, fMul(h2, h)))
	return nx, ny, fMul(h, fMul(a.z, b.z))
}

func (a vCP) tangent() (nx, ny, d *big.Int) {
	// slope 3x^2/(2yz)
	l := fMul(vI(3), fMul(a.x, a.x))
	y2 := fMul(a.y, a.y)
	nx = fSub(fMul(l, l), fMul(vI(8), fMul(a.x, y2)))
	ny = fSub(fMul(l, fSub(fMul(vI(4), fMul(a.x, y2)), nx)), fMul(vI(8), fMul(y2, y2)))
	return nx, ny, fMul(vI(2), fMul(a.y, a.z))
}

func vCPkept(c *curvePoint, v vCP) bool {
	w := vCPof(c, v.inf)
	return w.x.Cmp(v.x) == 0 && w.y.Cmp(v.y) == 0 && w.z.Cmp(v.z) == 0 && (c.z.Sign() == 0) == v.inf
}

func vZok(z *big.Int, inf bool) {
	if inf {
		symAssert(z.Sign() == 0, "result is not recognised as infinity")
	} else {
		symAssert(vM(z).Sign() != 0, "z of a finite point is zero modulo P")
	}
	symAssert(z.Sign() >= 0 && z.Cmp(new(big.Int).Lsh(P, 1)) < 0, "z out of range")
}

type vTP struct {
	x, y, z v2
	inf     bool
}

func s2r(n string) *gfP2 {
	two := new(big.Int).Sub(new(big.Int).Lsh(P, 1), vI(1))
	z := &gfP2{symBigRange(n+"x", vI(0), two), symBigRange(n+"y", vI(0), two)}
	symAssume(!(z.x.Cmp(P) == 0) && !(z.y.Cmp(P) == 0))
	return z
}

func sTP(n string, inf bool) (*twistPoint, vTP) {
	wide := n != "c"
	c := &twistPoint{s2(n+"x", wide), s2(n+"y", wide), &gfP2{vI(0), vI(0)}, s2(n+"t", false)}
	if !inf {
		c.z = s2r(n + "z")
		symAssume(!v2of(c.z).zero())
	}
	return c, vTPof(c, inf)
}

func vTPof(c *twistPoint, inf bool) vTP { return vTP{v2of(c.x), v2of(c.y), v2of(c.z), inf} }

func g2of(v v2) *gfP2 { return &gfP2{new(big.Int).Set(v.x), new(big.Int).Set(v.y)} }

func sTPsame(n string, a vTP, neg bool) (*twistPoint, vTP) {
	k := v2of(s2(n+"k", false))
	symAssume(!k.zero())
	k2 := k.mul(k)
	y := a.y.mul(k2.mul(k))
	if neg {
		y = y.neg()
	}
	c := &twistPoint{g2of(a.x.mul(k2)), g2of(y), g2of(a.z.mul(k)), s2(n+"t", false)}
	symAssume(!v2of(c.z).zero()) // a field: see HC09_constants
	if symBool(n + "shift") {
		c.x.x.Sub(c.x.x, P)
		c.y.y.Add(c.y.y, P)
	}
	return c, vTPof(c, false)
}

func vTPis(c *twistPoint, nx, ny, d v2) {
	z := v2of(c.z)
	z2, d2 := z.mul(z), d.mul(d)
	symAssert(v2of(c.x).mul(d2).eq(nx.mul(z2)), "x of the twist point is wrong")
	symAssert(v2of(c.y).mul(d2.mul(d)).eq(ny.mul(z2.mul(z))), "y of the twist point is wrong")
}

func (a vTP) chord(b vTP) (nx, ny, d v2) {
	za2, zb2 := a.z.mul(a.z), b.z.mul(b.z)
	u1, u2 := a.x.mul(zb2), b.x.mul(za2)
	s1, s2 := a.y.mul(zb2.mul(b.z)), b.y.mul(za2.mul(a.z))
	h, r := u2.sub(u1), s2.sub(s1)
	h2 := h.mul(h)
	nx = r.mul(r).sub(h2.mul(u1.add(u2)))
	ny = r.mul(u1.mul(h2).sub(nx)).sub(s1.mul(h2.mul(h)))
	return nx, ny, h.mul(a.z.mul(b.z))
}

func (a vTP) tangent() (nx, ny, d v2) {
	l := v2c(0, 3).mul(a.x.mul(a.x))
	y2 := a.y.mul(a.y)
	nx = l.mul(l).sub(v2c(0, 8).mul(a.x.mul(y2)))
	ny = l.mul(v2c(0, 4).mul(a.x.mul(y2)).sub(nx)).sub(v2c(0, 8).mul(y2.mul(y2)))
	return nx, ny, v2c(0, 2).mul(a.y.mul(a.z))
}

func vTPkept(c *twistPoint, v vTP) bool {
	w := vTPof(c, v.inf)
	return w.x.eq(v.x) && w.y.eq(v.y) && w.z.eq(v.z) && c.IsInfinity() == v.inf
}

// vZ2ok: the IsInfinity test of later operations works on z
func vZ2ok(z *gfP2, inf bool) {
	if inf {
		symAssert(z.x.Sign() == 0 && z.y.Sign() == 0, "result is not recognised as infinity")
	}
	for _, f := range []*big.Int{z.x, z.y} {
		symAssert(f.Sign() >= 0 && f.Cmp(new(big.Int).Lsh(P, 1)) < 0 && f.Cmp(P) != 0, "z out of range")
	}
}
