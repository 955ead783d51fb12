package bn256

import "math/big"

// Reference arithmetic: naive, immutable values, independent of the code.

func vI(n int64) *big.Int         { return big.NewInt(n) }
func vM(x *big.Int) *big.Int      { return new(big.Int).Mod(x, P) }
func fAdd(a, b *big.Int) *big.Int { return vM(new(big.Int).Add(a, b)) }
func fSub(a, b *big.Int) *big.Int { return vM(new(big.Int).Sub(a, b)) }
func fMul(a, b *big.Int) *big.Int { return vM(new(big.Int).Mul(a, b)) }

type v2 struct{ x, y *big.Int } // x*i+y
type v6 struct{ x, y, z v2 }    // x*tau^2+y*tau+z
type v12 struct{ x, y v6 }      // x*omega+y

func v2of(a *gfP2) v2    { return v2{vM(a.x), vM(a.y)} }
func v2c(x, y int64) v2  { return v2{vM(vI(x)), vM(vI(y))} }
func (a v2) add(b v2) v2 { return v2{fAdd(a.x, b.x), fAdd(a.y, b.y)} }
func (a v2) sub(b v2) v2 { return v2{fSub(a.x, b.x), fSub(a.y, b.y)} }
func (a v2) neg() v2     { return v2c(0, 0).sub(a) }
func (a v2) mul(b v2) v2 {
	return v2{fAdd(fMul(a.x, b.y), fMul(a.y, b.x)), fSub(fMul(a.y, b.y), fMul(a.x, b.x))}
}
func (a v2) pow(e *big.Int) v2 {
	r := v2c(0, 1)
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = r.mul(r)
		if e.Bit(i) != 0 {
			r = r.mul(a)
		}
	}
	return r
}
func (a v2) scale(k *big.Int) v2 { return v2{fMul(a.x, k), fMul(a.y, k)} }
func (a v2) conj() v2            { return v2{vM(new(big.Int).Neg(a.x)), a.y} }
func (a v2) eq(b v2) bool        { return a.x.Cmp(b.x) == 0 && a.y.Cmp(b.y) == 0 }
func (a v2) zero() bool          { return a.x.Sign() == 0 && a.y.Sign() == 0 }

var vXi = v2c(1, 9)

func v6of(a *gfP6) v6    { return v6{v2of(a.x), v2of(a.y), v2of(a.z)} }
func v6c(n int64) v6     { return v6{v2c(0, 0), v2c(0, 0), v2c(0, n)} }
func (a v6) add(b v6) v6 { return v6{a.x.add(b.x), a.y.add(b.y), a.z.add(b.z)} }
func (a v6) sub(b v6) v6 { return v6{a.x.sub(b.x), a.y.sub(b.y), a.z.sub(b.z)} }
func (a v6) mul(b v6) v6 {
	// (x t^2+y t+z)(X t^2+Y t+Z), t^3=xi
	return v6{
		a.x.mul(b.z).add(a.y.mul(b.y)).add(a.z.mul(b.x)),
		a.y.mul(b.z).add(a.z.mul(b.y)).add(vXi.mul(a.x.mul(b.x))),
		a.z.mul(b.z).add(vXi.mul(a.x.mul(b.y).add(a.y.mul(b.x)))),
	}
}
func (a v6) mulTau() v6     { return v6{a.y, a.z, vXi.mul(a.x)} }
func (a v6) eq(b v6) bool   { return a.x.eq(b.x) && a.y.eq(b.y) && a.z.eq(b.z) }
func (a v6) scale2(b v2) v6 { return v6{a.x.mul(b), a.y.mul(b), a.z.mul(b)} }

func v12of(a *gfP12) v12    { return v12{v6of(a.x), v6of(a.y)} }
func v12c(n int64) v12      { return v12{v6c(0), v6c(n)} }
func (a v12) add(b v12) v12 { return v12{a.x.add(b.x), a.y.add(b.y)} }
func (a v12) sub(b v12) v12 { return v12{a.x.sub(b.x), a.y.sub(b.y)} }
func (a v12) mul(b v12) v12 {
	return v12{a.x.mul(b.y).add(a.y.mul(b.x)), a.y.mul(b.y).add(a.x.mul(b.x).mulTau())}
}
func (a v12) eq(b v12) bool { return a.x.eq(b.x) && a.y.eq(b.y) }
func (a v12) pow(e *big.Int) v12 {
	r := v12c(1)
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = r.mul(r)
		if e.Bit(i) != 0 {
			r = r.mul(a)
		}
	}
	return r
}

// symbolic elements; the representation is any integer when wide is set
func sF(n string, wide bool) *big.Int {
	if wide {
		return symBigInt(n)
	}
	return symBig(n, P)
}
func s2(n string, wide bool) *gfP2 { return &gfP2{sF(n+"x", wide), sF(n+"y", wide)} }
func s6(n string, wide bool) *gfP6 { return &gfP6{s2(n+"x", wide), s2(n+"y", wide), s2(n+"z", wide)} }
func s12(n string, wide bool) *gfP12 {
	return &gfP12{s6(n+"x", wide), s6(n+"y", wide)}
}

// a scratch pool: none, empty, or holding used numbers with arbitrary contents
type vPool struct {
	p     *bnPool
	dirty []*big.Int
}

func sPool() *vPool {
	switch symChoose("pool", 3) {
	case 0:
		return &vPool{}
	case 1:
		return &vPool{p: new(bnPool)}
	}
	v := &vPool{p: new(bnPool)}
	for i := 0; i < 6; i++ {
		v.p.Put(symBigInt("dirty"))
	}
	return v
}

// spoil overwrites every number the pool may hand out again; a result or an
// operand that shares one of them changes.
func (v *vPool) spoil() {
	if v.p == nil {
		return
	}
	seen := map[*big.Int]bool{}
	for len(v.p.bns) > 0 {
		b := v.p.Get()
		symAssert(!seen[b], "the pool holds a number twice")
		seen[b] = true
		b.SetInt64(0x5eed)
	}
}

// the parameters of the Barreto-Naehrig curve
func vBN() (p, r *big.Int) {
	u := new(big.Int).SetUint64(4965661367192848881)
	pw := func(c int64, e int) *big.Int {
		x := vI(c)
		for ; e > 0; e-- {
			x.Mul(x, u)
		}
		return x
	}
	p = vI(1)
	r = vI(1)
	for i, c := range []int64{6, 24, 36, 36} {
		p.Add(p, pw(c, i+1))
	}
	for i, c := range []int64{6, 18, 36, 36} {
		r.Add(r, pw(c, i+1))
	}
	return p, r
}

func n12Elem(s int64) *gfP12 {
	a := newGFp12(nil)
	x := vI(s)
	for _, f := range vPairs(a) {
		x = fAdd(fMul(x, fMul(x, x)), vI(0x1234567))
		f.Set(x)
	}
	return a
}
