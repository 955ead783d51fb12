package bn256

import "math/big"

// Pair and PairingCheck over an abstract Miller function and final
// exponentiation: elements of gfP12 are kept as exponents modulo Order in
// x.z.y, the pairing of a*G and b*H is g^(a*b).

func m13Set(e *gfP12, v *big.Int) *gfP12 {
	e.SetOne()
	e.x.z.y.Mod(v, Order)
	return e
}

//symgo:model @/pairing.miller m13Miller
func m13Miller(q *twistPoint, p *curvePoint, pool *bnPool) *gfP12 {
	if q.IsInfinity() || p.IsInfinity() {
		// anything
		return s12("junk", false)
	}
	return m13Set(newGFp12(pool), new(big.Int).Mul(p.x, q.x.x))
}

//symgo:model @/pairing.finalExponentiation m13Final
func m13Final(in *gfP12, pool *bnPool) *gfP12 {
	return m13Set(newGFp12(pool), in.x.z.y)
}

//symgo:model (*@/pairing.gfP12).Mul m13Mul
func m13Mul(e, a, b *gfP12, pool *bnPool) *gfP12 {
	return m13Set(e, new(big.Int).Add(a.x.z.y, b.x.z.y))
}

func m13Point(n string) (*G1, *big.Int) {
	c := &curvePoint{symBig(n, Order), vI(0), vI(1), vI(1)}
	if symBool(n + "inf") {
		c.z = vI(0)
		return &G1{c}, vI(0)
	}
	symAssume(c.x.Sign() != 0)
	return &G1{c}, c.x
}

func m13Point2(n string) (*G2, *big.Int) {
	c := &twistPoint{&gfP2{symBig(n, Order), vI(0)}, &gfP2{vI(0), vI(0)}, g2of(v2c(0, 1)), g2of(v2c(0, 1))}
	if symBool(n + "inf") {
		c.z.SetZero()
		return &G2{c}, vI(0)
	}
	symAssume(c.x.x.Sign() != 0)
	return &G2{c}, c.x.x
}

//symgo:run C12 both group=pair time=60 samples=0
func HC12_pair() {
	if symNative() {
		n13()
		return
	}
	a, x := m13Point("a")
	b, y := m13Point2("b")
	e := Pair(a, b)
	want := new(big.Int).Mod(new(big.Int).Mul(x, y), Order)
	symAssert(e.p.x.z.y.Cmp(want) == 0, "Pair")
	if x.Sign() == 0 || y.Sign() == 0 {
		symAssert(v12of(e.p).eq(v12c(1)), "pairing with infinity is not one")
	}
}

//symgo:run C12 quick group=pair time=60 samples=0 p.n=3
//symgo:run C12 thorough group=pair time=200 samples=0 p.n=5
func HC12_paircheck() {
	if symNative() {
		n13()
		return
	}
	n := symChoose("n", symParam("n", 3)+1)
	var as []*G1
	var bs []*G2
	sum := vI(0)
	for i := 0; i < n; i++ {
		a, x := m13Point("a")
		b, y := m13Point2("b")
		as, bs = append(as, a), append(bs, b)
		sum.Add(sum, new(big.Int).Mul(x, y))
	}
	sum.Mod(sum, Order)
	symAssert(PairingCheck(as, bs) == (sum.Sign() == 0), "PairingCheck is not the product of the pairings being one")
}

func n13() {
	g1 := func(k int64) *G1 { return new(G1).ScalarBaseMult(vI(k)) }
	g2 := func(k int64) *G2 { return new(G2).ScalarBaseMult(vI(k)) }
	one := func(e *GT) bool { return v12of(e.p).eq(v12c(1)) }
	symAssert(one(Pair(g1(0), g2(3))) && one(Pair(g1(3), g2(0))) && one(Pair(g1(0), g2(0))), "pairing with infinity is not one")
	symAssert(!one(Pair(g1(1), g2(1))), "the pairing is degenerate")
	neg := func(k int64) *G1 { return new(G1).Neg(g1(k)) }
	symAssert(PairingCheck(nil, nil), "PairingCheck of nothing")
	symAssert(PairingCheck([]*G1{g1(2), neg(1)}, []*G2{g2(3), g2(6)}), "PairingCheck")
	symAssert(PairingCheck([]*G1{g1(2), g1(0), neg(1)}, []*G2{g2(3), g2(5), g2(6)}), "PairingCheck with infinity")
	symAssert(PairingCheck([]*G1{g1(2), g1(7), neg(1)}, []*G2{g2(3), g2(0), g2(6)}), "PairingCheck with infinity")
	symAssert(!PairingCheck([]*G1{g1(2), g1(0), neg(1)}, []*G2{g2(3), g2(5), g2(7)}), "PairingCheck")
	symAssert(!PairingCheck([]*G1{g1(2), g1(1)}, []*G2{g2(3), g2(6)}), "PairingCheck")
	symAssert(!PairingCheck([]*G1{g1(2)}, []*G2{g2(3)}), "PairingCheck")
	symAssert(PairingCheck([]*G1{g1(1), g1(1), neg(1)}, []*G2{g2(1), g2(2), g2(3)}), "PairingCheck")
}
