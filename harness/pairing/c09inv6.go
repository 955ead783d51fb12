package bn256

// gfP6.Invert, with gfP2.Invert replaced by its specification (verified by
// HC09_gfp2): an element whose product with the argument is one.
//
//symgo:model (*@/pairing.gfP2).Invert m09Invert2
func m09Invert2(e, a *gfP2, pool *bnPool) *gfP2 {
	va := v2of(a)
	r := s2("inv", false)
	symAssume(v2of(r).mul(va).eq(v2c(0, 1)))
	e.Set(r)
	return e
}

//symgo:run C09 both group=inv6 time=100 ff=60000
func HC09_gfp6invert() {
	pool := sPool()
	a := s6("a", false)
	e := s6("e", false)
	if symBool("alias") {
		e = a
	}
	va := v6of(a)
	symAssume(!va.eq(v6c(0)))
	e.Invert(a, pool.p)
	pool.spoil()
	w := v6of(e).mul(va)
	symAssert(w.x.zero(), "gfP6.Invert is not an inverse x")
	symAssert(w.y.zero(), "gfP6.Invert is not an inverse y")
	symAssert(w.z.x.Sign() == 0, "gfP6.Invert is not an inverse zx")
	symAssert(w.z.y.Cmp(vI(1)) == 0, "gfP6.Invert is not an inverse zy")
	if e != a {
		symAssert(v6of(a).eq(va), "operand changed")
	}
}
