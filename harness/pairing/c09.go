package bn256

import "math/big"

// c09Ops2 runs one operation e=op(a,b) of gfP2 and returns the specified value.
//
//symgo:run C09 both time=120 ff=10000
func HC09_gfp2() {
	pool := sPool()
	a, b := s2("a", true), s2("b", true)
	e := s2("e", true)
	switch symChoose("alias", 5) {
	case 1:
		e = a
	case 2:
		e = b
	case 3:
		b = a
	case 4:
		b = a
		e = a
	}
	va, vb := v2of(a), v2of(b)
	a0, b0 := &gfP2{new(big.Int).Set(a.x), new(big.Int).Set(a.y)}, &gfP2{new(big.Int).Set(b.x), new(big.Int).Set(b.y)}
	var want v2
	unary := false
	var ret *gfP2
	switch symChoose("op", 12) {
	case 0:
		ret = e.Add(a, b)
		want = va.add(vb)
	case 1:
		ret = e.Sub(a, b)
		want = va.sub(vb)
	case 2:
		ret = e.Mul(a, b, pool.p)
		want = va.mul(vb)
	case 3:
		ret = e.Square(a, pool.p)
		want = va.mul(va)
		unary = true
	case 4:
		ret = e.Double(a)
		want = va.add(va)
		unary = true
	case 5:
		ret = e.Negative(a)
		want = va.neg()
		unary = true
	case 6:
		ret = e.Conjugate(a)
		want = va.conj()
		unary = true
	case 7:
		ret = e.MulXi(a, pool.p)
		want = va.mul(vXi)
		unary = true
	case 8:
		k := symBigInt("k")
		ret = e.MulScalar(a, k)
		want = va.scale(vM(k))
		unary = true
	case 9:
		// the norm of a nonzero element is not zero: -1 is no square mod P,
		// which HC09_nonresidue establishes
		symAssume(fAdd(fMul(va.x, va.x), fMul(va.y, va.y)).Sign() != 0)
		ret = e.Invert(a, pool.p)
		pool.spoil()
		symAssert(v2of(e).mul(va).eq(v2c(0, 1)), "gfP2.Invert is not an inverse")
		symAssert(ret == e, "the receiver is not returned")
		return
	case 10:
		ret = e.Set(a)
		want = va
		unary = true
	case 11:
		a.Minimal()
		symAssert(v2of(a).eq(va), "Minimal changes the value")
		symAssert(a.x.Sign() >= 0 && a.x.Cmp(P) < 0 && a.y.Sign() >= 0 && a.y.Cmp(P) < 0, "Minimal does not reduce")
		symAssert(a.IsZero() == va.zero(), "IsZero after Minimal")
		symAssert(a.IsOne() == va.eq(v2c(0, 1)), "IsOne after Minimal")
		return
	}
	pool.spoil()
	symAssert(v2of(e).eq(want), "gfP2 operation wrong")
	symAssert(ret == e, "the receiver is not returned")
	if e != a {
		symAssert(a.x.Cmp(a0.x) == 0 && a.y.Cmp(a0.y) == 0, "operand a changed")
	}
	if e != b && !unary {
		symAssert(b.x.Cmp(b0.x) == 0 && b.y.Cmp(b0.y) == 0, "operand b changed")
	}
	symObserve("x", vM(e.x))
	symObserve("y", vM(e.y))
}

//symgo:run C09 quick time=60 p.bits=4
//symgo:run C09 thorough time=200 p.bits=6
func HC09_gfp2exp() {
	pool := sPool()
	a := s2("a", false)
	e := s2("e", false)
	if symBool("alias") {
		e = a
	}
	va := v2of(a)
	k := symInt("k", 0, 1<<uint(symParam("bits", 4))-1)
	e.Exp(a, big.NewInt(int64(k)), pool.p)
	pool.spoil()
	w := v2c(0, 1)
	for i := symConcInt(k); i > 0; i-- {
		w = w.mul(va)
	}
	symAssert(v2of(e).eq(w), "gfP2.Exp is not repeated multiplication")
}

// exponents of any length
//
//symgo:run C09 both time=60
func HC09_explong() {
	pool := sPool()
	k := new(big.Int).Lsh(vI(1), []uint{64, 255, 256, 300, 513, 1025, 2050, 4100}[symChoose("top", 8)])
	if symBool("two") {
		k.Add(k, new(big.Int).Lsh(vI(1), []uint{0, 31, 63}[symChoose("bit", 3)]))
	}
	k0 := new(big.Int).Set(k)
	x := vI(int64(symChoose("x", 3)) + 2)
	a := &gfP2{x, vI(5)}
	e := newGFp2(nil)
	va := v2of(a)
	e.Exp(a, k, pool.p)
	pool.spoil()
	symAssert(v2of(e).eq(va.pow(k0)), "gfP2.Exp is not repeated multiplication")
	symAssert(k.Cmp(k0) == 0, "exponent changed")
}

//symgo:run C09 both time=120 ff=10000
func HC09_gfp6() {
	pool := sPool()
	op := symChoose("op", 10)
	wide := symBool("wide")
	a, b := s6("a", wide), s6("b", wide)
	e := s6("e", false)
	switch symChoose("alias", 5) {
	case 1:
		e = a
	case 2:
		e = b
	case 3:
		b = a
	case 4:
		b = a
		e = a
	}
	va, vb := v6of(a), v6of(b)
	var want v6
	var ret *gfP6
	unary := false
	switch op {
	case 0:
		ret = e.Add(a, b)
		want = va.add(vb)
	case 1:
		ret = e.Sub(a, b)
		want = va.sub(vb)
	case 2:
		ret = e.Mul(a, b, pool.p)
		want = va.mul(vb)
	case 3:
		ret = e.Square(a, pool.p)
		want = va.mul(va)
		unary = true
	case 4:
		ret = e.Double(a)
		want = va.add(va)
		unary = true
	case 5:
		ret = e.Negative(a)
		want = v6c(0).sub(va)
		unary = true
	case 6:
		e.MulTau(a, pool.p)
		ret = e
		want = va.mulTau()
		unary = true
	case 7:
		k := s2("k", wide)
		vk := v2of(k)
		ret = e.MulScalar(a, k, pool.p)
		want = va.scale2(vk)
		symAssert(v2of(k).eq(vk), "scalar changed")
		unary = true
	case 8:
		k := symBigInt("k")
		ret = e.MulGFP(a, k)
		want = va.scale2(v2{vI(0), vM(k)})
		unary = true
	case 9:
		ret = e.Set(a)
		want = va
		unary = true
	}
	pool.spoil()
	symAssert(v6of(e).eq(want), "gfP6 operation wrong")
	symAssert(ret == e, "the receiver is not returned")
	if e != a {
		symAssert(v6of(a).eq(va), "operand a changed")
	}
	if e != b && !unary {
		symAssert(v6of(b).eq(vb), "operand b changed")
	}
}

//symgo:run C09 both time=60
func HC09_gfp6minimal() {
	// one coordinate is any integer, the others are 0, 1 or any residue
	a := s6("m", false)
	k := symChoose("which", 6)
	for i, f := range []*big.Int{a.x.x, a.x.y, a.y.x, a.y.y, a.z.x, a.z.y} {
		if i != k {
			if c := symChoose("val", 3); c < 2 && (c == 0 || i%2 == 1) {
				f.SetInt64(int64(c))
			} else if i%2 == 0 {
				return
			}
		} else {
			f.Set(symBigInt("w"))
		}
	}
	va := v6of(a)
	a.Minimal()
	symAssert(v6of(a).eq(va), "Minimal changes the value")
	symAssert(a.IsZero() == va.eq(v6c(0)), "IsZero after Minimal")
	symAssert(a.IsOne() == va.eq(v6c(1)), "IsOne after Minimal")
}

// the scalar of MulScalar may be a part of the operand
//
//symgo:run C09 both time=60
func HC09_gfp6scalaralias() {
	pool := sPool()
	a := s6("a", false)
	e := s6("e", false)
	va := v6of(a)
	k := a.z
	vk := va.z
	switch symChoose("part", 3) {
	case 1:
		k, vk = a.y, va.y
	case 2:
		k, vk = a.x, va.x
	}
	e.MulScalar(a, k, pool.p)
	pool.spoil()
	symAssert(v6of(e).eq(va.scale2(vk)), "gfP6.MulScalar wrong")
	symAssert(v6of(a).eq(va), "operand changed")
}

// P is 3 mod 4: minus one is no square mod P, so x^2+y^2=0 for x=y=0 only, and
// xi is neither a square nor a cube in gfP2, so the towers are fields.
//
//symgo:run C09 both time=60 steps=60000000
func HC09_constants() {
	symAssert(new(big.Int).Mod(P, vI(4)).Cmp(vI(3)) == 0, "P is not 3 mod 4")
	q2 := new(big.Int).Sub(new(big.Int).Mul(P, P), vI(1))
	for _, d := range []int64{2, 3} {
		e := new(big.Int).Div(q2, vI(d))
		symAssert(new(big.Int).Mul(e, vI(d)).Cmp(q2) == 0, "no root of unity")
		symAssert(!vXi.pow(e).eq(v2c(0, 1)), "xi is a d-th power")
	}
}

//symgo:run C09 both time=120 ff=10000
func HC09_gfp12() {
	pool := sPool()
	a, b := s12("a", false), s12("b", false)
	e := s12("e", false)
	switch symChoose("alias", 5) {
	case 1:
		e = a
	case 2:
		e = b
	case 3:
		b = a
	case 4:
		b = a
		e = a
	}
	va, vb := v12of(a), v12of(b)
	var want v12
	unary := true
	switch symChoose("op", 9) {
	case 0:
		e.Add(a, b)
		want = va.add(vb)
		unary = false
	case 1:
		e.Sub(a, b)
		want = va.sub(vb)
		unary = false
	case 2:
		symAssert(e.Mul(a, b, pool.p) == e, "the receiver is not returned")
		want = va.mul(vb)
		unary = false
	case 3:
		symAssert(e.Square(a, pool.p) == e, "the receiver is not returned")
		want = va.mul(va)
	case 4:
		e.Negative(a)
		want = v12c(0).sub(va)
	case 5:
		symAssert(e.Conjugate(a) == e, "the receiver is not returned")
		want = v12{v6c(0).sub(va.x), va.y}
	case 6:
		e.Set(a)
		want = va
	case 7:
		symAssert(a.IsZero() == va.eq(v12c(0)), "IsZero")
		symAssert(a.IsOne() == va.eq(v12c(1)), "IsOne")
		want = va
		e = a
	case 8:
		k := s6("k", false)
		vk := v6of(k)
		symAssert(e.MulScalar(a, k, pool.p) == e, "the receiver is not returned")
		want = v12{va.x.mul(vk), va.y.mul(vk)}
		symAssert(v6of(k).eq(vk), "scalar changed")
	}
	pool.spoil()
	symAssert(v12of(e).eq(want), "gfP12 operation wrong")
	if e != a {
		symAssert(v12of(a).eq(va), "operand a changed")
	}
	if e != b && !unary {
		symAssert(v12of(b).eq(vb), "operand b changed")
	}
}

//symgo:run C09 quick time=60 p.bits=2
//symgo:run C09 thorough time=300 p.bits=2 ff=60000
func HC09_gfp12exp() {
	pool := sPool()
	a := s12("a", false)
	// one coordinate pair only: keeps the degree in reach
	for _, c := range []*gfP2{a.x.x, a.x.z, a.y.x, a.y.y} {
		c.SetZero()
	}
	e := s12("e", false)
	if symBool("alias") {
		e = a
	}
	va := v12of(a)
	k := symInt("k", 0, 1<<uint(symParam("bits", 2))-1)
	e.Exp(a, big.NewInt(int64(k)), pool.p)
	pool.spoil()
	w := v12c(1)
	for i := symConcInt(k); i > 0; i-- {
		w = w.mul(va)
	}
	symAssert(v12of(e).eq(w), "gfP12.Exp is not repeated multiplication")
}

// Frobenius maps are additive and conjugate gfP2.
// The basis over gfP2 is omega^k; omega^6=xi, so
// omega^(kP) = omega^k * xi^(k(P-1)/6).
func vFrob(a v12) v12 {
	g := vXi.pow(new(big.Int).Div(new(big.Int).Sub(P, vI(1)), vI(6)))
	gk := v2c(0, 1)
	var c [6]v2
	for k := 0; k < 6; k++ {
		c[k] = gk
		gk = gk.mul(g)
	}
	return v12{
		v6{a.x.x.conj().mul(c[5]), a.x.y.conj().mul(c[3]), a.x.z.conj().mul(c[1])},
		v6{a.y.x.conj().mul(c[4]), a.y.y.conj().mul(c[2]), a.y.z.conj().mul(c[0])},
	}
}

//symgo:run C09 both time=100
func HC09_frobenius() {
	pool := sPool()
	a, e := s12("a", false), s12("e", false)
	if symBool("alias") {
		e = a
	}
	va := v12of(a)
	switch symChoose("op", 3) {
	case 0:
		e.Frobenius(a, pool.p)
		pool.spoil()
		symAssert(v12of(e).eq(vFrob(va)), "Frobenius is not the p-th power")
	case 1:
		e.FrobeniusP2(a, pool.p)
		pool.spoil()
		symAssert(v12of(e).eq(vFrob(vFrob(va))), "FrobeniusP2 is not the p^2-th power")
	case 2:
		e.x.Frobenius(a.x, pool.p)
		pool.spoil()
		w := v12{v6c(0), va.x}
		symAssert(v12of(&gfP12{newGFp6(nil), e.x}).eq(vFrob(w)), "gfP6.Frobenius is not the p-th power")
	}
	if e != a {
		symAssert(v12of(a).eq(va), "operand changed")
	}
}
