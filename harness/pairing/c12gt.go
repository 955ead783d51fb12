package bn256

import "math/big"

// the operations of GT over exponents, see c12exp.go

func m13N() *big.Int {
	n := new(big.Int).Exp(P, vI(12), nil)
	return n.Sub(n, vI(1))
}

func m13Get(a *gfP12) *big.Int { return a.x.z.y }

func m13Set(e *gfP12, v *big.Int) *gfP12 {
	v = new(big.Int).Mod(v, m13N())
	e.SetOne()
	e.x.z.y.Set(v)
	return e
}

//symgo:model (*@/pairing.gfP12).Mul m13Mul
func m13Mul(e, a, b *gfP12, pool *bnPool) *gfP12 {
	return m13Set(e, new(big.Int).Add(m13Get(a), m13Get(b)))
}

//symgo:model (*@/pairing.gfP12).Square m13Square
func m13Square(e, a *gfP12, pool *bnPool) *gfP12 {
	return m13Set(e, new(big.Int).Add(m13Get(a), m13Get(a)))
}

//symgo:model (*@/pairing.gfP12).Invert m13Invert
func m13Invert(e, a *gfP12, pool *bnPool) *gfP12 {
	return m13Set(e, new(big.Int).Neg(m13Get(a)))
}

// the group operations of GT are product, power and inverse
//
//symgo:run C12 both group=gt time=60 steps=20000000 samples=0
func HC12_gt() {
	symAssert(v12of(OneGT().p).eq(v12c(1)) && v12of(ZeroGT().p).eq(v12c(0)), "OneGT or ZeroGT wrong")
	if symNative() {
		n12GT()
		return
	}
	n := m13N()
	lim := new(big.Int).Sub(n, vI(1))
	mk := func(s string) (*GT, *big.Int) {
		g := &GT{newGFp12(nil)}
		v := symBigRange(s, vI(0), lim)
		g.p.x.z.y.Set(v)
		return g, v
	}
	a, x := mk("a")
	b, y := mk("b")
	e := new(GT)
	if symBool("used") {
		e, _ = mk("e")
	}
	switch symChoose("alias", 3) {
	case 1:
		e = a
	case 2:
		e = b
	}
	var want *big.Int
	switch symChoose("op", 3) {
	case 0:
		symAssert(e.Add(a, b) == e, "the receiver is not returned")
		want = new(big.Int).Add(x, y)
	case 1:
		ki := symChoose("k", 11)
		k := vI([]int64{0, 1, 2, 5, 1 << 40, -1, -4, 5, 5, 5, 5}[ki])
		if ki > 6 {
			// longer than the order of GT, or of the whole field
			k.Add(k, new(big.Int).Lsh(vI(1), []uint{257, 1000, 3100, 4200}[ki-7]))
			x = vI(7)
			a.p.x.z.y.Set(x)
			if e != b {
				y.Set(x)
				b.p.x.z.y.Set(y)
			}
		}
		if k.Sign() < 0 {
			// an element of the group, whose order is Order
			q := new(big.Int).Div(n, Order)
			x.Mul(q, vI([]int64{1, 12345}[symChoose("z", 2)]))
			a.p.x.z.y.Set(x)
			if e != b {
				y.Set(x)
				b.p.x.z.y.Set(y)
			}
		}
		symAssert(e.ScalarMult(a, k) == e, "the receiver is not returned")
		want = new(big.Int).Mul(x, k)
	case 2:
		symAssert(e.Neg(a) == e, "the receiver is not returned")
		want = new(big.Int).Neg(x)
	}
	symAssert(m13Get(e.p).Cmp(want.Mod(want, n)) == 0, "operation of GT wrong")
	if e != a {
		symAssert(m13Get(a.p).Cmp(x) == 0, "operand changed")
	}
	if e != b {
		symAssert(m13Get(b.p).Cmp(y) == 0, "operand changed")
	}
}

func n12GT() {
	a, b := n12Elem(5), n12Elem(9)
	va, vb := v12of(a), v12of(b)
	for al := 0; al < 3; al++ {
		for op := 0; op < 3; op++ {
			x, y, e := &GT{newGFp12(nil)}, &GT{newGFp12(nil)}, new(GT)
			x.p.Set(a)
			y.p.Set(b)
			if al == 1 {
				e = x
			} else if al == 2 {
				e = y
			}
			switch op {
			case 0:
				e.Add(x, y)
				symAssert(v12of(e.p).eq(va.mul(vb)), "operation of GT wrong")
			case 1:
				x.p.Set(finalExponentiation(a, new(bnPool)))
				g := v12of(x.p)
				e.ScalarMult(x, vI(-3))
				symAssert(v12of(e.p).mul(g.pow(vI(3))).eq(v12c(1)), "operation of GT wrong")
				for k := int64(0); k < 9; k++ {
					x.p.Set(a)
					e.ScalarMult(x, vI(k))
					symAssert(v12of(e.p).eq(va.pow(vI(k))), "operation of GT wrong")
				}
				for _, n := range []uint{257, 1000, 3100, 4200} {
					k := new(big.Int).Lsh(vI(1), n)
					k.Add(k, vI(5))
					x.p.Set(a)
					e.ScalarMult(x, k)
					symAssert(v12of(e.p).eq(va.pow(k)), "operation of GT wrong")
				}
			case 2:
				e.Neg(x)
				symAssert(v12of(e.p).mul(va).eq(v12c(1)), "operation of GT wrong")
			}
		}
	}
}
