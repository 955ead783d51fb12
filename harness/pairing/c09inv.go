package bn256

// gfP12.Invert, with gfP6.Invert replaced by its specification (verified by
// HC09_gfp6invert): an element whose product with the argument is one.
//
//symgo:model (*@/pairing.gfP6).Invert m09Invert6
func m09Invert6(e, a *gfP6, pool *bnPool) *gfP6 {
	va := v6of(a)
	r := s6("inv", false)
	symAssume(v6of(r).mul(va).eq(v6c(1)))
	e.Set(r)
	return e
}

//symgo:run C09 both group=inv time=100 ff=60000
func HC09_gfp12invert() {
	pool := sPool()
	a := s12("a", false)
	e := s12("e", false)
	if symBool("alias") {
		e = a
	}
	va := v12of(a)
	e.Invert(a, pool.p)
	pool.spoil()
	symAssert(v12of(e).mul(va).eq(v12c(1)), "gfP12.Invert is not an inverse")
	if e != a {
		symAssert(v12of(a).eq(va), "operand changed")
	}
}
