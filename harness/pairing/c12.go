package bn256

// The lines of the Miller loop. A line through twist points, evaluated at the
// curve point (xq,yq), is yq - l*xq*w + (l*xr-yr)*w^3 with the slope l on the
// twist; multiples by elements of gfP2 vanish in the final exponentiation.

func sAffine(n string) *curvePoint {
	wide := symBool(n + "wide")
	return &curvePoint{sF(n+"x", wide), sF(n+"y", wide), vI(1), vI(1)}
}

func v12Line(a, b, c *gfP2, ea, eb, ec v2) {
	va, vb, vc := v2of(a), v2of(b), v2of(c)
	symAssert(vc.mul(eb).eq(vb.mul(ec)), "line coefficients wrong (c:b)")
	symAssert(vc.mul(ea).eq(va.mul(ec)), "line coefficients wrong (c:a)")
	symAssert(vb.mul(ea).eq(va.mul(eb)), "line coefficients wrong (b:a)")
	symAssert(!vc.zero(), "line vanishes")
}

func sR(n string) (*twistPoint, vTP) {
	r, _ := sTP(n, false)
	r.x, r.y, r.t = s2(n+"x", false), s2(n+"y", false), g2of(v2of(r.z).mul(v2of(r.z)))
	return r, vTPof(r, false)
}

//symgo:run C12 both time=100 ff=60000
func HC12_linedouble() {
	pool := sPool()
	r, v := sR("r")
	q := sAffine("q")
	xq, yq := vM(q.x), vM(q.y)
	z2 := v.z.mul(v.z)
	ec := v2c(0, 2).mul(v.y).mul(z2.mul(v.z)).scale(yq)
	eb := v2c(0, -3).mul(v.x.mul(v.x)).mul(z2).scale(xq)
	ea := v2c(0, 3).mul(v.x).mul(v.x).mul(v.x).sub(v2c(0, 2).mul(v.y.mul(v.y)))
	symAssume(!ec.zero()) // y, z and yq are not zero
	a, b, c, out := lineFunctionDouble(r, q, pool.p)
	pool.spoil()
	v12Line(a, b, c, ea, eb, ec)
	nx, ny, d := v.tangent()
	vTPis(out, nx, ny, d)
	symAssert(!v2of(out.z).zero(), "the double is infinite")
	symAssert(v2of(out.t).eq(v2of(out.z).mul(v2of(out.z))), "t is not z^2")
	symAssert(vTPkept(r, v), "the point is changed")
	symAssert(vM(q.x).Cmp(xq) == 0 && vM(q.y).Cmp(yq) == 0, "the curve point is changed")
}

//symgo:run C12 both time=150 ff=60000
func HC12_lineadd() {
	pool := sPool()
	r, v := sR("r")
	p := &twistPoint{s2("px", false), s2("py", false), g2of(v2c(0, 1)), g2of(v2c(0, 1))}
	vp := vTPof(p, false)
	q := &curvePoint{symBig("qx", P), symBig("qy", P), vI(1), vI(1)}
	xq, yq := vM(q.x), vM(q.y)
	r2 := g2of(vp.y.mul(vp.y))
	z2 := v.z.mul(v.z)
	d := v.z.mul(v.x.sub(vp.x.mul(z2)))
	n := v.y.sub(vp.y.mul(z2.mul(v.z)))
	ec := d.scale(yq)
	eb := n.neg().scale(xq)
	ea := n.mul(vp.x).sub(vp.y.mul(d))
	symAssume(!ec.zero())
	a, b, c, out := lineFunctionAdd(r, p, q, r2, pool.p)
	pool.spoil()
	v12Line(a, b, c, ea, eb, ec)
	nx, ny, dd := v.chord(vp)
	vTPis(out, nx, ny, dd)
	symAssert(!v2of(out.z).zero(), "the sum is infinite")
	symAssert(v2of(out.t).eq(v2of(out.z).mul(v2of(out.z))), "t is not z^2")
	symAssert(vTPkept(r, v) && vTPkept(p, vp), "a point is changed")
	symAssert(v2of(r2).eq(vp.y.mul(vp.y)), "r2 is changed")
}

//symgo:run C12 both time=60 ff=20000
func HC12_mulline() {
	pool := sPool()
	ret := s12("r", symBool("wide"))
	a, b, c := s2("a", true), s2("b", true), s2("c", true)
	v := v12of(ret)
	l := v12{v6{v2c(0, 0), v2of(a), v2of(b)}, v6{v2c(0, 0), v2c(0, 0), v2of(c)}}
	mulLine(ret, a, b, c, pool.p)
	pool.spoil()
	symAssert(v12of(ret).eq(v.mul(l)), "mulLine is not the product")
	symAssert(v2of(a).eq(l.x.y) && v2of(b).eq(l.x.z) && v2of(c).eq(l.y.z), "the line is changed")
}

// the curve parameters
//
//symgo:run C12 both time=60 steps=60000000
func HC12_params() {
	p, r := vBN()
	symAssert(p.Cmp(P) == 0 && r.Cmp(Order) == 0, "P and Order are not those of the curve")
	g := vTPof(twistGen, false)
	symAssert(g.z.eq(v2c(0, 1)) && g.y.mul(g.y).eq(g.x.mul(g.x).mul(g.x).add(v2of(twistB))), "twistGen is not on the twist")
	symAssert(v2of(twistB).mul(vXi).eq(v2c(0, 3)), "coefficient of the twist")
	symAssert(curveGen.x.Cmp(vI(1)) == 0 && curveGen.y.Cmp(vI(2)) == 0 && curveGen.z.Cmp(vI(1)) == 0, "curveGen")
}
