package bn256

import "math/big"

// The encoding of G1: x and y as 32 big-endian bytes, all zero for infinity.
//
//symgo:run C11 both time=100 ff=10000
func HC11_g1marshal() {
	// one coordinate is arbitrary; the other one is a constant
	k := symChoose("which", 2)
	w := symBigInt("w")
	o := []*big.Int{vI(0), vI(1), new(big.Int).Sub(P, vI(1)), new(big.Int).Rsh(P, 16), vI(0x12345)}[symChoose("other", 5)]
	c := &curvePoint{w, o, vI(1), vI(1)}
	if k == 1 {
		c.x, c.y = o, w
	}
	switch symChoose("z", 7) {
	case 1:
		c.z = vI(0)
	case 2:
		c.z = vI(2)
	case 3: // one in its lowest word
		c.z = new(big.Int).Add(new(big.Int).Lsh(vI(7), 64), vI(1))
	case 4: // one in its highest word
		c.z = new(big.Int).Lsh(vI(1), 192)
	case 5: // minus one, and one modulo P
		c.z = new(big.Int).Sub(P, vI(1))
	case 6:
		c.z = new(big.Int).Add(P, vI(1))
	}
	inf := c.z.Sign() == 0
	v := vCPof(c, inf)
	e := &G1{c}
	m := e.Marshal()
	symAssert(len(m) == 64, "length of the encoding")
	x, y := vWord(m, 0), vWord(m, 1)
	if inf {
		symAssert(x.Sign() == 0 && y.Sign() == 0, "infinity is not encoded by zeros")
		return
	}
	symAssert(x.Cmp(P) < 0 && y.Cmp(P) < 0, "coordinate not reduced")
	z2 := fMul(v.z, v.z)
	symAssert(fMul(x, z2).Cmp(v.x) == 0, "encoded x wrong")
	symAssert(fMul(y, fMul(z2, v.z)).Cmp(v.y) == 0, "encoded y wrong")
	symObserve("x", x)
	symObserve("y", y)
	// a second encoding is the same
	m2 := e.Marshal()
	symAssert(vWord(m2, 0).Cmp(x) == 0 && vWord(m2, 1).Cmp(y) == 0 && len(m2) == 64, "encoding is not stable")
}

//symgo:run C11 both time=100 ff=10000
func HC11_g2marshal() {
	z := symChoose("z", 7)
	no, nk, w := 3, 4, vI(77)
	if z > 2 { // constants only
		no, nk = 1, 1
	} else {
		w = symBigInt("w")
	}
	k := symChoose("which", nk)
	o := []*big.Int{vI(0), vI(1), new(big.Int).Rsh(P, 16)}[symChoose("other", no)]
	f := []*big.Int{o, vI(0x1234), new(big.Int).Sub(P, vI(7)), vI(0)}
	f[k] = w
	c := &twistPoint{&gfP2{f[0], f[1]}, &gfP2{f[2], f[3]}, &gfP2{vI(0), vI(1)}, &gfP2{vI(0), vI(1)}}
	switch z {
	case 1:
		c.z = &gfP2{vI(0), vI(0)}
	case 2:
		c.z = &gfP2{vI(0), vI(2)}
	case 3: // the real part is one
		c.z = &gfP2{vI(5), vI(1)}
	case 4: // the imaginary part is one
		c.z = &gfP2{vI(1), vI(0)}
	case 5: // one in its lowest word
		c.z = &gfP2{vI(0), new(big.Int).Add(new(big.Int).Lsh(vI(7), 64), vI(1))}
	case 6: // one modulo P
		c.z = &gfP2{new(big.Int).Set(P), new(big.Int).Add(P, vI(1))}
	}
	inf := c.IsInfinity()
	v := vTPof(c, inf)
	e := &G2{c}
	m := e.Marshal()
	symAssert(len(m) == 128, "length of the encoding")
	var x [4]*big.Int
	for i := range x {
		x[i] = vWord(m, i)
		if inf {
			symAssert(x[i].Sign() == 0, "infinity is not encoded by zeros")
		}
		symAssert(x[i].Cmp(P) < 0, "coordinate not reduced")
	}
	if inf {
		return
	}
	z2 := v.z.mul(v.z)
	symAssert(v2{x[0], x[1]}.mul(z2).eq(v.x), "encoded x wrong")
	symAssert(v2{x[2], x[3]}.mul(z2.mul(v.z)).eq(v.y), "encoded y wrong")
}

//symgo:run C11 both time=100 ff=10000
func HC11_gtmarshal() {
	k := symChoose("which", 12)
	a := newGFp12(nil)
	for i, f := range vPairs(a) {
		f.SetInt64(int64(i * i * i * 77))
		if i%5 == 3 {
			f.Sub(P, vI(int64(i)))
		}
	}
	w := vPairs(a)[k]
	w.Set(symBigInt("w"))
	v := v12of(a)
	e := &GT{a}
	m := e.Marshal()
	symAssert(len(m) == 384, "length of the encoding")
	r := newGFp12(nil)
	for i, f := range vPairs(r) {
		f.Set(vWord(m, i))
		symAssert(f.Cmp(P) < 0, "coordinate not reduced")
	}
	symAssert(v12of(r).eq(v), "encoded value wrong")
	symAssert(v12of(a).eq(v), "Marshal changes the value")
	g, ok := new(GT).Unmarshal(m)
	symAssert(ok && v12of(g.p).eq(v), "GT does not survive Marshal and Unmarshal")
}

//symgo:run C11 both time=60
func HC11_gtunmarshal() {
	n := []int{0, 1, 383, 384, 385, 768}[symChoose("len", 6)]
	ws := make([]*big.Int, 12)
	k := symChoose("which", 12)
	for i := range ws {
		ws[i] = vI(int64(i * 3))
		if i == k {
			ws[i] = sW("w")
		}
	}
	m := vJoin(ws...)
	for len(m) < n {
		m = append(m, 1)
	}
	e := new(GT)
	if symBool("used") {
		e.p = newGFp12(nil)
	}
	g, ok := e.Unmarshal(m[:n])
	symAssert(ok == (n == 384), "length check")
	if !ok {
		symAssert(g == nil, "result of a rejected encoding")
		return
	}
	symAssert(g == e, "the receiver is not returned")
	for i, f := range vPairs(e.p) {
		symAssert(f.Cmp(ws[i]) == 0, "decoded value wrong")
	}
}
