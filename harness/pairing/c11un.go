package bn256

import "math/big"

// Decoding accepts exactly the encodings of points. The curve equation itself
// is checked by HC10_curveother, the subgroup check by HC11_subgroup; here both
// are an arbitrary answer.

var m11On bool
var m11Called bool

//symgo:model (*@/pairing.curvePoint).IsOnCurve m11IsOn
func m11IsOn(c *curvePoint) bool {
	m11Called = true
	return m11On
}

//symgo:model (*@/pairing.twistPoint).IsOnCurve m11IsOn2
func m11IsOn2(c *twistPoint) bool {
	m11Called = true
	return m11On
}

//symgo:run C11 both group=un time=60 samples=0
func HC11_g1unmarshal() {
	n := []int{0, 1, 63, 64, 65, 128}[symChoose("len", 6)]
	x, y := sW("x"), sW("y")
	m11On = symBool("on")
	m11Called = false
	if symNative() {
		n11()
		m11On = (&curvePoint{vM(x), vM(y), vI(1), vI(1)}).IsOnCurve()
	}
	m := vJoin(x, y)
	for len(m) < n {
		m = append(m, 0)
	}
	e := new(G1)
	if symBool("used") {
		e.p = &curvePoint{vI(3), vI(4), vI(5), vI(6)}
	}
	rest, err := e.Unmarshal(m[:n])
	inf := x.Sign() == 0 && y.Sign() == 0
	want := n == 64 && x.Cmp(P) < 0 && y.Cmp(P) < 0 && (inf || m11On)
	symAssert((err == nil) == want, "G1.Unmarshal accepts exactly the encodings of points")
	if err != nil {
		return
	}
	symAssert(len(rest) == 0, "bytes left over")
	if inf {
		symAssert(e.p.z.Sign() == 0, "zero encoding is infinity")
	} else {
		symAssert(e.p.x.Cmp(x) == 0 && e.p.y.Cmp(y) == 0 && e.p.z.Cmp(vI(1)) == 0 && e.p.t.Cmp(vI(1)) == 0, "decoded point wrong")
	}
}

//symgo:run C11 both group=un time=100 samples=0
func HC11_g2unmarshal() {
	n := []int{0, 127, 128, 129, 256}[symChoose("len", 5)]
	w := []*big.Int{sW("a"), sW("b"), sW("c"), sW("d")}
	m11On = symBool("on")
	m11Called = false
	if symNative() {
		n11()
		m11On = (&twistPoint{&gfP2{vM(w[0]), vM(w[1])}, &gfP2{vM(w[2]), vM(w[3])}, &gfP2{vI(0), vI(1)}, &gfP2{vI(0), vI(1)}}).IsOnCurve()
	}
	m := vJoin(w...)
	for len(m) < n {
		m = append(m, 0)
	}
	e := new(G2)
	if symBool("used") {
		e.p = newTwistPoint(nil)
		e.p.z.x.SetInt64(9)
		e.p.t.x.SetInt64(9)
	}
	rest, err := e.Unmarshal(m[:n])
	inf, small := true, true
	for _, f := range w {
		if f.Sign() != 0 {
			inf = false
		}
		if f.Cmp(P) >= 0 {
			small = false
		}
	}
	want := n == 128 && small && (inf || m11On)
	symAssert((err == nil) == want, "G2.Unmarshal accepts exactly the encodings of points")
	if err != nil {
		return
	}
	symAssert(len(rest) == 0, "bytes left over")
	if inf {
		symAssert(e.p.IsInfinity(), "zero encoding is infinity")
	} else {
		symAssert(v2of(e.p.x).eq(v2{w[0], w[1]}) && v2of(e.p.y).eq(v2{w[2], w[3]}), "decoded point wrong")
		symAssert(v2of(e.p.z).eq(v2c(0, 1)) && v2of(e.p.t).eq(v2c(0, 1)), "decoded point wrong")
	}
}

// n11: real points survive the round trip
func n11() {
	a, b := new(G1).ScalarBaseMult(vI(1)), new(G2).ScalarBaseMult(vI(1))
	g1, g2 := new(G1).ScalarBaseMult(vI(1)), new(G2).ScalarBaseMult(vI(1))
	for i := 0; i < 20; i++ {
		m := a.Marshal()
		c := new(G1)
		_, err := c.Unmarshal(m)
		symAssert(err == nil && string(c.Marshal()) == string(m), "G1 point does not survive Marshal and Unmarshal")
		m = b.Marshal()
		d := new(G2)
		_, err = d.Unmarshal(m)
		symAssert(err == nil && string(d.Marshal()) == string(m), "G2 point does not survive Marshal and Unmarshal")
		a = new(G1).Add(a, g1)
		b = new(G2).Add(b, g2)
	}
}
