package circuitcompiler

import "math/big"

// a linear combination with its operands as they were
type vLC struct {
	f    factors
	num  []*big.Int // the numbers of the coefficients
	val  []*big.Int // and their values
	kind []int
}

var vLCNames = []string{"", "a", "b", "c"}

// vComb: n factors, each a number or one of the variables, with the given
// coefficients
func vComb(tag string, n, kinds int, coef func(string) *big.Int) (r vLC) {
	for i := 0; i < n; i++ {
		k := symChoose(tag+"k"+vNum(i), kinds)
		c := coef(tag + "c" + vNum(i))
		t := Token{Type: ARGUMENT, Identifier: vLCNames[k]}
		if k == 0 {
			t = Token{Type: NumberToken, Identifier: c.String()}
		}
		r.f = append(r.f, factor{typ: t, multiplicative: c})
		r.num = append(r.num, c)
		r.val = append(r.val, new(big.Int).Set(c))
		r.kind = append(r.kind, k)
	}
	return
}

func vSymCoef(n string) *big.Int { return symBig(n, vQ()) }

// the values of the variables
func vLCVars() []*big.Int {
	return []*big.Int{vB(1), symBig("a", vQ()), symBig("b", vQ()), symBig("c", vQ())}
}

// the value the combination had
func (l vLC) value(v []*big.Int) *big.Int {
	s := vB(0)
	for i := range l.val {
		s = vAdd(s, vMul(l.val[i], v[l.kind[i]]))
	}
	return s
}

func vLCValue(f factors, v []*big.Int) *big.Int {
	s := vB(0)
	for _, x := range f {
		k := -1
		if x.typ.Type == NumberToken {
			k = 0
		} else {
			for i := 1; i < len(vLCNames); i++ {
				if x.typ.Identifier == vLCNames[i] {
					k = i
				}
			}
		}
		symAssert(k >= 0, "unknown variable in the result")
		s = vAdd(s, vMul(vMod(x.multiplicative), v[k]))
	}
	return s
}

// the numbers, which constants and variables may share, have not changed
func (l vLC) untouched(what string) {
	for i := range l.num {
		symAssert(l.num[i].Cmp(l.val[i]) == 0, what+" changes a number of its operand")
	}
}

// a number is named by its value
func vNamed(f factors) {
	for _, x := range f {
		if x.typ.Type == NumberToken {
			symAssert(x.typ.Identifier == x.multiplicative.String(), "a number has the name of another number")
		}
	}
}

// Sums of two combinations
//
//symgo:run C15 quick time=60 p.l=2 p.r=2
//symgo:run C15 thorough time=400 p.l=3 p.r=3
func HC15_add() {
	l := vComb("l", symChoose("nl", symParam("l", 2)+1), 3, vSymCoef)
	r := vComb("r", symChoose("nr", symParam("r", 2)+1), 3, vSymCoef)
	v := vLCVars()
	s := addFactors(l.f, r.f)
	symAssert(len(s) > 0, "an empty sum")
	symAssert(vLCValue(s, v).Cmp(vAdd(l.value(v), r.value(v))) == 0, "value of the sum")
	l.untouched("addition")
	r.untouched("addition")
	vNamed(s)
}

// Differences, as the compiler forms them
//
//symgo:run C15 both time=60 p.n=2
func HC15_sub() {
	n := symParam("n", 2)
	l := vComb("l", 1+symChoose("nl", n), 3, vSymCoef)
	r := vComb("r", 1+symChoose("nr", n), 3, vSymCoef)
	v := vLCVars()
	m := negateFactors(r.f)
	symAssert(vLCValue(m, v).Cmp(vSub(vB(0), r.value(v))) == 0, "value of the negation")
	r.untouched("negation")
	s := addFactors(l.f, m)
	symAssert(vLCValue(s, v).Cmp(vSub(l.value(v), r.value(v))) == 0, "value of the difference")
	l.untouched("subtraction")
	r.untouched("subtraction")
}

// A combination times a number, in both orders
//
//symgo:run C15 quick time=60 p.n=3
//symgo:run C15 thorough time=200 p.n=4
func HC15_mul() {
	l := vComb("l", 1+symChoose("nl", symParam("n", 3)), 4, vSymCoef)
	r := vComb("r", 1, 1, vSymCoef)
	v := vLCVars()
	var s factors
	if symBool("swap") {
		s = mulFactors(r.f, l.f)
	} else {
		s = mulFactors(l.f, r.f)
	}
	symAssert(vLCValue(s, v).Cmp(vMul(l.value(v), r.value(v))) == 0, "value of the product")
	l.untouched("multiplication")
	r.untouched("multiplication")
	vNamed(s)
}

// Scaling
//
//symgo:run C15 both time=60
func HC15_scale() {
	l := vComb("l", 1+symChoose("nl", 3), 4, vSymCoef)
	x := symBig("x", vQ())
	x0 := new(big.Int).Set(x)
	v := vLCVars()
	s := l.f.scalarMultiplyFactors(x)
	symAssert(vLCValue(s, v).Cmp(vMul(l.value(v), x0)) == 0, "value of the scaled combination")
	symAssert(x.Cmp(x0) == 0, "scaling changes the scalar")
	l.untouched("scaling")
}

// Division by a constant
//
//symgo:run C15 both time=60
func HC15_invert() {
	l := vComb("l", 1+symChoose("nl", 2), 3, vSymCoef)
	r := vComb("r", 1, 1, vSymCoef)
	v := vLCVars()
	symAssume(r.val[0].Sign() != 0)
	want := l.value(v)
	s := mulFactors(l.f, invertFactors(r.f))
	symAssert(vMul(vLCValue(s, v), r.val[0]).Cmp(want) == 0, "value of the quotient")
	symAssert(r.f[0].multiplicative.Cmp(r.val[0]) == 0, "the divisor is changed")
	l.untouched("division")
	r.untouched("division")
	vNamed(s)
}

// A copy has the same value and shares nothing
//
//symgo:run C15 both time=60
func HC15_clone() {
	l := vComb("l", 1+symChoose("nl", 3), 4, vSymCoef)
	v := vLCVars()
	c := l.f.clone()
	symAssert(vLCValue(c, v).Cmp(l.value(v)) == 0, "value of the copy")
	for i := range c {
		c[i].multiplicative.Add(c[i].multiplicative, vB(1))
		c[i].typ.Identifier = "z"
	}
	l.untouched("a change of the copy")
	for i := range l.f {
		symAssert(l.f[i].multiplicative == l.num[i] && l.f[i].typ.Identifier != "z", "the copy shares its slots")
	}
}

// The number of the last step of a chain: one constant used in several
// operations keeps its value
//
//symgo:run C15 quick time=60 p.steps=3
//symgo:run C15 thorough time=300 p.steps=4
func HC15_history() {
	k := symBig("k", vQ())
	k0 := new(big.Int).Set(k)
	con := func() factors { // as a variable that holds the number returns it
		return factors{factor{typ: Token{Type: NumberToken, Identifier: k.String()}, multiplicative: k}}
	}
	v := vLCVars()
	l := vComb("l", 1, 2, vSymCoef)
	f, want := l.f, l.value(v)
	for i := 0; i < symParam("steps", 3); i++ {
		switch symChoose("op", 6) {
		case 0:
			f, want = addFactors(f, con()), vAdd(want, k0)
		case 1:
			f, want = addFactors(f, negateFactors(con())), vSub(want, k0)
		case 2:
			f, want = addFactors(con(), negateFactors(f)), vSub(k0, want)
		case 3:
			f, want = mulFactors(f, con()), vMul(want, k0)
		case 4:
			f, want = mulFactors(con(), f), vMul(want, k0)
		case 5:
			g, e := factorSignature(con())
			symAssert(vMul(vMod(g), vLCValue(e, v)).Cmp(k0) == 0, "factoring out of a constant")
		}
		symAssert(k.Cmp(k0) == 0, "the constant is changed")
	}
	symAssert(vLCValue(f, v).Cmp(want) == 0, "value after the history")
}

func vCoefs(n string) *big.Int {
	l := []*big.Int{vB(2), vB(1), vB(6), vB(0), new(big.Int).Sub(vQ(), vB(1)), vB(-4), vB(9)}
	return l[symChoose(n, len(l))]
}

// Factoring out: the common factor times the rest is the combination; the rest
// does not depend on the common factor or on the order
//
//symgo:run C15 both time=100
func HC15_extract() {
	l := vComb("l", 1+symChoose("nl", 3), 3, func(n string) *big.Int { return new(big.Int).Set(vCoefs(n)) })
	v := vLCVars()
	g, e := factorSignature(l.f)
	symAssert(vMul(vMod(g), vLCValue(e, v)).Cmp(l.value(v)) == 0, "common factor times rest")
	l.untouched("factoring out")
	for i := range l.f {
		symAssert(l.f[i].multiplicative == l.num[i], "factoring out changes its operand")
	}
	// rotated
	rot := append(append(factors{}, l.f[1:]...), l.f[0])
	g2, e2 := factorSignature(rot)
	symAssert(g.Cmp(g2) == 0 && len(e) == len(e2), "factoring out depends on the order")
	dup := false
	for i := range l.kind {
		for j := range l.kind {
			dup = dup || i != j && l.kind[i] == l.kind[j]
		}
	}
	if !dup {
		symAssert(e.factorSignature() == e2.factorSignature(), "the signature depends on the order")
	}
	for i := range e {
		symAssert(e[i].typ == e2[i].typ && e[i].multiplicative.Cmp(e2[i].multiplicative) == 0, "the rest depends on the order")
	}
}

// Two combinations with the same signature are the same up to the extracted
// factor
//
//symgo:run C15 both time=100
func HC15_signature() {
	mk := func(t string) vLC {
		return vComb(t, 2, 3, func(n string) *big.Int {
			return new(big.Int).Set([]*big.Int{vB(2), vB(1), vB(3), vB(-2)}[symChoose(n, 4)])
		})
	}
	l, r := mk("l"), mk("r")
	v := vLCVars()
	sl, el := extractGCD_andSignature(l.f)
	sr, er := extractGCD_andSignature(r.f)
	symAssert(vMul(vMod(sl.commonExtracted), vLCValue(el, v)).Cmp(l.value(v)) == 0, "common factor times rest")
	if sl.identifier.Identifier == sr.identifier.Identifier {
		symReach("equal")
		symAssert(vLCValue(el, v).Cmp(vLCValue(er, v)) == 0, "different combinations with one signature")
	} else {
		symReach("different")
	}
	res, fl, fr := extractConstant(l.f, r.f)
	symAssert(vMul(res, vMul(vLCValue(fl, v), vLCValue(fr, v))).Cmp(vMul(l.value(v), r.value(v))) == 0, "constant of a product")
	l.untouched("factoring out")
	r.untouched("factoring out")
}

// Operations on functions that are numbers
//
//symgo:run C15 both time=60
func HC15_numbers() {
	a, b := symBig("a", vQ()), symBig("b", vQ())
	fa := factor{typ: Token{Type: NumberToken, Identifier: a.String()}, multiplicative: a}.primitiveReturnfunction()
	fb := factor{typ: Token{Type: NumberToken, Identifier: b.String()}, multiplicative: b}.primitiveReturnfunction()
	symAssert(fa.isNumber && fa.value.Cmp(a) == 0, "function of a number")
	op := vPick("op", vOps)
	want := vOp(op, vInt(new(big.Int).Set(a)), vInt(new(big.Int).Set(b)))
	if !vDefined(want) {
		return
	}
	r := combineFunctions(op, fa, fb)
	symAssert(r.isNumber && vIs(want, r.value), "value of the combined function")
	symAssert(fa.value.Cmp(a) == 0 && fb.value.Cmp(b) == 0, "operand changed")
}

// Combinations of many terms
//
//symgo:run C15 quick time=60 p.n=17
//symgo:run C15 thorough time=200 p.n=65
func HC15_long() {
	n := vLongSize("n", symParam("n", 17))
	shift := symChoose("shift", 3)
	op := symChoose("op", 4)
	comb := func(tag string, from, step int) (f factors, c map[string]*big.Int) {
		c = map[string]*big.Int{}
		for i := 0; i < n; i++ {
			k := (from + i*step) % (n + 3)
			t := Token{Type: ARGUMENT, Identifier: "v" + vNum(k)}
			v := vB(int64(2*i + 4))
			if op < 3 && (i == n/2 || i == n-1) {
				v = symBig(tag, vQ())
			}
			if k == 1 {
				t = Token{Type: NumberToken, Identifier: v.String()}
			}
			f = append(f, factor{typ: t, multiplicative: v})
			c[t.Identifier] = new(big.Int).Set(v)
			if k == 1 {
				delete(c, t.Identifier)
				c[""] = new(big.Int).Set(v)
			}
		}
		return
	}
	sum := func(f factors) map[string]*big.Int {
		c := map[string]*big.Int{}
		for _, x := range f {
			k := x.typ.Identifier
			if x.typ.Type == NumberToken {
				k = ""
			}
			if c[k] == nil {
				c[k] = vB(0)
			}
			c[k] = vAdd(c[k], vMod(x.multiplicative))
		}
		return c
	}
	same := func(f factors, want func(k string) *big.Int, what string) {
		c := sum(f)
		for k := 0; k < n+4; k++ {
			name := "v" + vNum(k)
			if k == 1 {
				name = ""
			}
			g := c[name]
			if g == nil {
				g = vB(0)
			}
			symAssert(g.Cmp(want(name)) == 0, what)
		}
	}
	get := func(c map[string]*big.Int, k string) *big.Int {
		if c[k] == nil {
			return vB(0)
		}
		return c[k]
	}
	l, lc := comb("l", 0, 1)
	r, rc := comb("r", shift, n+2)
	if symChoose("equal", 2) == 1 {
		r, rc = comb("l", 0, 1)
	}
	switch op {
	case 0:
		same(addFactors(l.clone(), r.clone()), func(k string) *big.Int { return vAdd(get(lc, k), get(rc, k)) }, "value of a long sum")
	case 1:
		same(addFactors(l.clone(), negateFactors(r.clone())), func(k string) *big.Int { return vSub(get(lc, k), get(rc, k)) }, "value of a long difference")
	case 2:
		s := symBig("s", vQ())
		m := mulFactors(l.clone(), factors{factor{typ: Token{Type: NumberToken, Identifier: s.String()}, multiplicative: s}})
		same(m, func(k string) *big.Int { return vMul(get(lc, k), s) }, "value of a long product")
	case 3:
		g, f := factorSignature(l)
		for i := range f {
			f[i].multiplicative = vMul(f[i].multiplicative, g)
		}
		same(f, func(k string) *big.Int { return get(lc, k) }, "value of a factored combination")
	}
	same(l, func(k string) *big.Int { return get(lc, k) }, "an operand is changed")
	same(r, func(k string) *big.Int { return get(rc, k) }, "an operand is changed")
}
