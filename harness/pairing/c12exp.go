package bn256

import "math/big"

// finalExponentiation over exponents: an element of gfP12 is g^e for a
// generator g of the multiplicative group and the integer e modulo P^12-1 is
// kept in the coordinate x.z.y. The operations on gfP12 are verified by the
// harnesses of C09; here they are replaced by what they do to exponents.

func m12N() *big.Int {
	n := new(big.Int).Exp(P, vI(12), nil)
	return n.Sub(n, vI(1))
}

func m12Get(a *gfP12) *big.Int { return a.x.z.y }

func m12Set(e *gfP12, v *big.Int) *gfP12 {
	v = new(big.Int).Mod(v, m12N())
	e.SetOne()
	e.x.z.y.Set(v)
	return e
}

//symgo:model (*@/pairing.gfP12).Mul m12Mul
func m12Mul(e, a, b *gfP12, pool *bnPool) *gfP12 {
	return m12Set(e, new(big.Int).Add(m12Get(a), m12Get(b)))
}

//symgo:model (*@/pairing.gfP12).Square m12Square
func m12Square(e, a *gfP12, pool *bnPool) *gfP12 {
	return m12Set(e, new(big.Int).Add(m12Get(a), m12Get(a)))
}

//symgo:model (*@/pairing.gfP12).Invert m12Invert
func m12Invert(e, a *gfP12, pool *bnPool) *gfP12 {
	return m12Set(e, new(big.Int).Neg(m12Get(a)))
}

//symgo:model (*@/pairing.gfP12).Exp m12Exp
func m12Exp(e, a *gfP12, k *big.Int, pool *bnPool) *gfP12 {
	return m12Set(e, new(big.Int).Mul(m12Get(a), k))
}

//symgo:model (*@/pairing.gfP12).Frobenius m12Frob
func m12Frob(e, a *gfP12, pool *bnPool) *gfP12 {
	return m12Set(e, new(big.Int).Mul(m12Get(a), P))
}

//symgo:model (*@/pairing.gfP12).FrobeniusP2 m12Frob2
func m12Frob2(e, a *gfP12, pool *bnPool) *gfP12 {
	return m12Set(e, new(big.Int).Mul(m12Get(a), new(big.Int).Mul(P, P)))
}

// negating the upper half is the conjugation, the P^6-th power
//
//symgo:model (*@/pairing.gfP6).Negative m12Neg
func m12Neg(e, a *gfP6) *gfP6 {
	v := new(big.Int).Mul(a.z.y, new(big.Int).Exp(P, vI(6), nil))
	e.SetZero()
	e.z.y.Mod(v, m12N())
	return e
}

//symgo:run C12 both group=exp time=60 steps=20000000 samples=0
func HC12_finalexp() {
	if symNative() {
		n12Exp()
		return
	}
	pool := sPool()
	n := m12N()
	e := symBigRange("e", vI(0), new(big.Int).Sub(n, vI(1)))
	in := newGFp12(nil)
	in.y.SetOne()
	in.x.z.y.Set(e)
	out := finalExponentiation(in, pool.p)
	symAssert(m12Get(in).Cmp(e) == 0, "the argument is changed")
	w := new(big.Int).Mod(new(big.Int).Mul(m12Get(out), Order), n)
	symAssert(w.Sign() == 0, "the result has not the order of the groups")
	// the power is (P^12-1)/Order times a unit modulo Order
	one := newGFp12(nil)
	one.x.z.y.SetInt64(1)
	k := m12Get(finalExponentiation(one, nil))
	q := new(big.Int).Div(n, Order)
	symAssert(new(big.Int).Mod(k, q).Sign() == 0 && new(big.Int).Mod(new(big.Int).Div(k, q), Order).Sign() != 0, "the power is degenerate")
	symAssert(new(big.Int).Mod(new(big.Int).Sub(m12Get(out), new(big.Int).Mul(k, e)), n).Sign() == 0, "not a power map")
}

// natively: the order divides, products are respected, not constant
func n12Exp() {
	pool := new(bnPool)
	a, b := n12Elem(3), n12Elem(11)
	fa, fb := v12of(finalExponentiation(a, pool)), v12of(finalExponentiation(b, pool))
	symAssert(v12of(a).eq(v12of(n12Elem(3))), "the argument is changed")
	ab := newGFp12(nil)
	ab.Mul(a, b, pool)
	fab := v12of(finalExponentiation(ab, pool))
	symAssert(fab.eq(fa.mul(fb)), "not a power map")
	symAssert(fa.pow(Order).eq(v12c(1)), "the result has not the order of the groups")
	symAssert(!fa.eq(v12c(1)) && !fb.eq(v12c(1)), "the power is degenerate")
}
