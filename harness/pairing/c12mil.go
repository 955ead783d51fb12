package bn256

import "math/big"

// The Miller loop over formal points. A twist point is a combination
// m0*Q + m1*F(Q) + m2*F^2(Q) of the argument and its Frobenius images; the line
// through A and B contributes [A]+[B]-[A+B] with [-A]=-[A] (vertical lines
// vanish in the final exponentiation). The accumulated function has to be the
// one of the optimal ate pairing,
//   (6u+2)[Q] + [F(Q)] - [F^2(Q)] - [S] with S=(6u+2)Q+F(Q)-F^2(Q).
// The line functions, mulLine and the squaring are verified by HC12_line*,
// HC12_mulline and HC09_gfp12.

type m12Point struct{ m [3]*big.Int }

func (p m12Point) key() string {
	return p.m[0].String() + "," + p.m[1].String() + "," + p.m[2].String()
}

func (p m12Point) add(q m12Point) m12Point {
	var r m12Point
	for i := range r.m {
		r.m[i] = new(big.Int).Add(p.m[i], q.m[i])
	}
	return r
}

func (p m12Point) neg() bool {
	for i := range p.m {
		if s := p.m[i].Sign(); s != 0 {
			return s < 0
		}
	}
	return false
}

type m12Line struct{ a, b m12Point }

var m12 struct {
	q      vTP // affine argument
	p      vCP
	points []m12Point
	lines  []m12Line
	div    map[string]*big.Int // accumulated divisor
}

func m12Add(p m12Point, k int64) {
	c := vI(k)
	if p.neg() {
		c.Neg(c)
		var r m12Point
		for i := range r.m {
			r.m[i] = new(big.Int).Neg(p.m[i])
		}
		p = r
	}
	old := m12.div[p.key()]
	if old == nil {
		old = vI(0)
	}
	m12.div[p.key()] = new(big.Int).Add(old, c)
}

func m12Pt(a, b, c int64) m12Point { return m12Point{[3]*big.Int{vI(a), vI(b), vI(c)}} }

// m12Which recognises a point by its coordinates
// (the line functions take the second point as affine and ignore its z and t)
func m12Which(r *twistPoint, first bool) m12Point {
	if r.z.x.Cmp(vI(5)) == 0 && r.z.y.Cmp(vI(5)) == 0 {
		return m12.points[r.x.x.Int64()]
	}
	symAssert(!first || v2of(r.z).eq(v2c(0, 1)) && v2of(r.t).eq(v2c(0, 1)), "an argument of the line functions is not affine")
	x, y := v2of(r.x), v2of(r.y)
	q := m12.q
	g2 := vXi.pow(new(big.Int).Div(new(big.Int).Sub(P, vI(1)), vI(3)))
	g3 := vXi.pow(new(big.Int).Div(new(big.Int).Sub(P, vI(1)), vI(2)))
	fx, fy := q.x.conj().mul(g2), q.y.conj().mul(g3)
	ffx, ffy := fx.conj().mul(g2), fy.conj().mul(g3)
	switch {
	case x.eq(q.x) && y.eq(q.y):
		return m12Pt(1, 0, 0)
	case x.eq(q.x) && y.eq(q.y.neg()):
		return m12Pt(-1, 0, 0)
	case x.eq(fx) && y.eq(fy):
		return m12Pt(0, 1, 0)
	case x.eq(fx) && y.eq(fy.neg()):
		return m12Pt(0, -1, 0)
	case x.eq(ffx) && y.eq(ffy):
		return m12Pt(0, 0, 1)
	case x.eq(ffx) && y.eq(ffy.neg()):
		return m12Pt(0, 0, -1)
	}
	symAssert(false, "a point of the Miller loop is no image of the argument")
	symStop()
	return m12Point{}
}

func m12New(a, b m12Point, q *curvePoint) (x, y, z *gfP2, out *twistPoint) {
	symAssert(vM(q.x).Cmp(m12.p.x) == 0 && vM(q.y).Cmp(m12.p.y) == 0, "lines are evaluated at another point")
	m12.points = append(m12.points, a.add(b))
	m12.lines = append(m12.lines, m12Line{a, b})
	id := vI(int64(len(m12.points) - 1))
	mk := func(k int64) *gfP2 { return &gfP2{new(big.Int).Set(id), vI(k)} }
	out = &twistPoint{mk(0), mk(0), &gfP2{vI(5), vI(5)}, mk(0)}
	return mk(1), mk(2), mk(3), out
}

//symgo:model @/pairing.lineFunctionDouble m12LineDouble
func m12LineDouble(r *twistPoint, q *curvePoint, pool *bnPool) (a, b, c *gfP2, rOut *twistPoint) {
	p := m12Which(r, true)
	return m12New(p, p, q)
}

//symgo:model @/pairing.lineFunctionAdd m12LineAdd
func m12LineAdd(r, p *twistPoint, q *curvePoint, r2 *gfP2, pool *bnPool) (a, b, c *gfP2, rOut *twistPoint) {
	py := v2of(p.y)
	symAssert(v2of(r2).eq(py.mul(py)), "r2 is not the square of y")
	w := m12Which(p, false)
	return m12New(m12Which(r, true), w, q)
}

//symgo:model @/pairing.mulLine m12MulLine
func m12MulLine(ret *gfP12, a, b, c *gfP2, pool *bnPool) {
	id := a.x.Int64()
	symAssert(b.x.Int64() == id && c.x.Int64() == id, "coefficients of different lines")
	symAssert(a.y.Int64() == 1 && b.y.Int64() == 2 && c.y.Int64() == 3, "coefficients of the line are permuted")
	l := m12.lines[id]
	m12Add(l.a, 1)
	m12Add(l.b, 1)
	m12Add(l.a.add(l.b), -1)
	ret.x.x.x.SetInt64(int64(len(m12.div)))
}

//symgo:model (*@/pairing.gfP12).Square m12Sq
func m12Sq(e, a *gfP12, pool *bnPool) *gfP12 {
	symAssert(e == a, "the squared value is not the accumulator")
	for k, v := range m12.div {
		m12.div[k] = new(big.Int).Lsh(v, 1)
	}
	return e
}

//symgo:run C12 both group=mil time=100 steps=20000000 samples=0 maporder=0
func HC12_miller() {
	if symNative() {
		n12Pair()
		return
	}
	q, vq := sTP("q", false)
	q.x, q.y = s2("qx", false), s2("qy", false)
	q.z, q.t = g2of(v2c(0, 1)), g2of(v2c(0, 1))
	vq = vTPof(q, false)
	p := &curvePoint{symBig("px", P), symBig("py", P), vI(1), vI(1)}
	m12.q, m12.p = vq, vCPof(p, false)
	if symBool("jacobian") {
		// the same points with other coordinates
		q.z.SetOne()
		q.z.y.SetInt64(2)
		q.x, q.y = g2of(vq.x.mul(v2c(0, 4))), g2of(vq.y.mul(v2c(0, 8)))
		q.t = s2("qt", false)
		p.z.SetInt64(3)
		p.x, p.y = fMul(p.x, vI(9)), fMul(p.y, vI(27))
		p.t = symBigInt("pt")
	}
	vq, vp := vTPof(q, false), vCPof(p, false)
	// general position: the images are distinct, no coordinate is zero
	for _, f := range []*big.Int{m12.q.x.x, m12.q.x.y, m12.q.y.x, m12.q.y.y} {
		symAssume(f.Sign() != 0)
	}
	m12.points, m12.lines, m12.div = nil, nil, map[string]*big.Int{}
	pool := &vPool{p: new(bnPool)}
	miller(q, p, pool.p)
	pool.spoil()
	symAssert(vTPkept(q, vq) && vCPkept(p, vp), "an argument is changed")
	u := new(big.Int).SetUint64(4965661367192848881)
	n := new(big.Int).Add(new(big.Int).Mul(u, vI(6)), vI(2))
	want := map[string]string{"1,0,0": n.String(), "0,1,0": "1", "0,0,1": "-1", n.String() + ",1,-1": "-1"}
	for k, v := range m12.div {
		if v.Sign() != 0 {
			symAssert(want[k] == v.String(), "the accumulated function is not that of the optimal ate pairing")
			delete(want, k)
		}
	}
	symAssert(len(want) == 0, "the accumulated function is not that of the optimal ate pairing")
}

// natively: bilinear and not degenerate on small multiples
func n12Pair() {
	g1 := func(k int64) *G1 { return new(G1).ScalarBaseMult(vI(k)) }
	g2 := func(k int64) *G2 { return new(G2).ScalarBaseMult(vI(k)) }
	e := v12of(Pair(g1(1), g2(1)).p)
	symAssert(!e.eq(v12c(1)), "the pairing is degenerate")
	symAssert(e.pow(Order).eq(v12c(1)), "the pairing has not the order of the groups")
	for a := int64(1); a < 4; a++ {
		for b := int64(1); b < 4; b++ {
			symAssert(v12of(Pair(g1(a), g2(b)).p).eq(e.pow(vI(a*b))), "the pairing is not bilinear")
		}
	}
	x := new(G1).Add(g1(2), g1(3))
	symAssert(v12of(Pair(x, g2(1)).p).eq(e.pow(vI(5))), "the pairing is not bilinear")
	inf1, inf2 := g1(0), g2(0)
	symAssert(v12of(Pair(inf1, g2(3)).p).eq(v12c(1)) && v12of(Pair(g1(3), inf2).p).eq(v12c(1)), "pairing with infinity is not one")
	symAssert(PairingCheck([]*G1{g1(2), new(G1).Neg(g1(1))}, []*G2{g2(3), g2(6)}), "PairingCheck")
	symAssert(!PairingCheck([]*G1{g1(2), g1(1)}, []*G2{g2(3), g2(6)}), "PairingCheck")
}
