package circuitcompiler

import "math/big"

// c16Check: main(x,y,o) asserts e == o; the witness solver accepts exactly the
// inputs for which this is true and e is defined
func c16Check(expr string, want vFrac, x, y *big.Int) {
	o := symBig("o", vQ())
	c, ok := vCompile("func main(x,y,o){\nequal(" + expr + ",o)\nreturn\n}\n")
	if !ok {
		symAssert(!vDefined(want), "the compiler rejects a valid program")
		return
	}
	w, err := vDense(c, x, y, o)
	if err == nil {
		symAssert(vDefined(want), "a witness although the program is undefined")
		symAssert(vIs(want, o), "the witness satisfies a wrong equality")
		symAssert(w[0].Cmp(vB(1)) == 0, "first wire is not one")
	} else if vDefined(want) {
		symAssert(!vIs(want, o), "no witness for a correct statement")
	}
}

// every operator on every pair of operands
//
//symgo:run C16 both time=200
func HC16_binary() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	a, b := vPick("a", vLeaves), vPick("b", vLeaves)
	op := vPick("op", vOps)
	c16Check("("+a+op+b+")", vOp(op, vLeaf(a, x, y), vLeaf(b, x, y)), x, y)
}

// three operands, both groupings
//
//symgo:run C16 quick time=200 p.leaves=4
//symgo:run C16 thorough time=700 p.leaves=5
func HC16_three() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	ls := vLeaves[:symParam("leaves", 4)]
	a, b, d := vPick("a", ls), vPick("b", ls), vPick("c", ls)
	o1, o2 := vPick("op1", vOps), vPick("op2", vOps)
	fa, fb, fd := vLeaf(a, x, y), vLeaf(b, x, y), vLeaf(d, x, y)
	if symChoose("group", 2) == 0 {
		c16Check("(("+a+o1+b+")"+o2+d+")", vOp(o2, vOp(o1, fa, fb), fd), x, y)
	} else {
		c16Check("("+a+o1+"("+b+o2+d+"))", vOp(o1, fa, vOp(o2, fb, fd)), x, y)
	}
}

// two bracketed pairs
//
//symgo:run C16 quick time=200 p.leaves=2
//symgo:run C16 thorough time=700 p.leaves=3
func HC16_four() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	ls := []string{"x", "y", "3"}[:symParam("leaves", 2)]
	a, b, d, e := vPick("a", ls), vPick("b", ls), vPick("c", ls), vPick("d", ls)
	o1, o2, o3 := vPick("op1", vOps), vPick("op2", vOps), vPick("op3", vOps)
	l := vOp(o1, vLeaf(a, x, y), vLeaf(b, x, y))
	r := vOp(o3, vLeaf(d, x, y), vLeaf(e, x, y))
	c16Check("(("+a+o1+b+")"+o2+"("+d+o3+e+"))", vOp(o2, l, r), x, y)
}

var c16Const = []string{
	"1", "2", "3", "0",
	"21888242871839275222246405745257275088548364400416034343698204186575808495616", // q-1
	"21888242871839275222246405745257275088548364400416034343698204186575808495620", // q+3
	"14474011154664524427946373126085988481658748083205070504932198000989141204992", // 2^253
	"6",
}

// products of linear combinations with constants that can be factored out
//
//symgo:run C16 quick time=200 p.consts=4
//symgo:run C16 thorough time=700 p.consts=7
func HC16_linear() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	cs := c16Const[:symParam("consts", 4)]
	a, b, d, e := vPick("a", cs), vPick("b", cs), vPick("c", cs), vPick("d", c16Const[4:])
	o1 := vPick("op1", []string{"+", "-"})
	o2 := vPick("op2", []string{"*", "/"})
	l := vOp(o1, vOp("*", vLeaf(a, x, y), vInt(x)), vOp("*", vInt(y), vLeaf(b, x, y)))
	r := vOp("+", vOp("*", vLeaf(d, x, y), vInt(x)), vLeaf(e, x, y))
	c16Check("((("+a+"*x)"+o1+"(y*"+b+"))"+o2+"(("+d+"*x)+"+e+"))", vOp(o2, l, r), x, y)
}

// addGateConstraint(e,f) is e+f
//
//symgo:run C16 quick time=200 p.leaves=3
//symgo:run C16 thorough time=700 p.leaves=4
func HC16_addgate() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	ls := []string{"x", "y", "6", "0"}[:symParam("leaves", 3)]
	a, b, d, e := vPick("a", ls), vPick("b", ls), vPick("c", ls), vPick("d", ls)
	o1, o3 := vPick("op1", vOps[:3]), vPick("op3", vOps[:3])
	k := vPick("k", []string{"1", "4"})
	l := vOp("*", vLeaf(k, x, y), vOp(o1, vLeaf(a, x, y), vLeaf(b, x, y)))
	r := vOp(o3, vLeaf(d, x, y), vLeaf(e, x, y))
	c16Check("addGateConstraint(("+k+"*("+a+o1+b+")),("+d+o3+e+"))", vOp("+", l, r), x, y)
}

// c16Prog: body is followed by equal(o,v); want is the value of v
func c16Prog(body, v, rest string, want vFrac, x, y *big.Int) {
	o := symBig("o", vQ())
	c, ok := vCompile("func main(x,y,o){\n" + body + "\nequal(o," + v + ")\nreturn\n}\n" + rest)
	if !ok {
		symAssert(!vDefined(want), "the compiler rejects a valid program")
		return
	}
	_, err := vDense(c, x, y, o)
	if err == nil {
		symAssert(vDefined(want), "a witness although the program is undefined")
		symAssert(vIs(want, o), "the witness satisfies a wrong equality")
	} else if vDefined(want) {
		symAssert(!vIs(want, o), "no witness for a correct statement")
	}
}

// variables used several times: a = E, b = a op c, d = c op a, b op d
//
//symgo:run C16 quick time=200 p.leaves=3
//symgo:run C16 thorough time=700 p.leaves=4
func HC16_reuse() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	ls := []string{"x", "5", "y", "0"}[:symParam("leaves", 3)]
	l1, l2, l3 := vPick("l1", ls), vPick("l2", ls), vPick("l3", ls)
	o1, o2, o3, o4 := vPick("op1", vOps[:3]), vPick("op2", vOps[1:]), vPick("op3", vOps[:3]), vPick("op4", vOps[:3])
	a := vOp(o1, vLeaf(l1, x, y), vLeaf(l2, x, y))
	c := vLeaf(l3, x, y)
	b, d := vOp(o2, a, c), vOp(o3, c, a)
	c16Prog("var c = "+l3+"\nvar a = "+l1+o1+l2+"\nvar b = a"+o2+"c\nvar d = c"+o3+"a",
		"b"+o4+"d", "", vOp(o4, b, d), x, y)
}

// a constant or product stays the same however often it was negated, scaled or inverted before
//
//symgo:run C16 quick time=200
//symgo:run C16 thorough time=500
func HC16_shared() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	es := []string{"7", "x", "(3*x)", "(x*y)", "(2*(x*y))", "(x+4)", "scalarBaseMultiply(0)"}
	vs := []vFrac{vInt(vB(7)), vInt(x), vInt(vMul(vB(3), x)), vInt(vMul(x, y)),
		vInt(vMul(vB(2), vMul(x, y))), vInt(vAdd(x, vB(4))), vInt(vB(0))}
	i := symChoose("e", len(es))
	use := vPick("use", []string{"x-a", "(y-a)-a", "a*3", "a*y", "y/(3+a)", "0-(a*a)", "f(a)"})
	op := vPick("op", vOps)
	k := vPick("k", []string{"y", "2"})
	want := vOp(op, vs[i], vLeaf(k, x, y))
	if use == "y/(3+a)" {
		want.undef = append(want.undef, vAdd(vB(3), vMul(vs[i].num, vB(1))))
	}
	c16Prog("var a = "+es[i]+"\nvar b = "+use+"\nvar c = "+use, "a"+op+k, "func f(z){\nvar w = 9-z\nreturn w-z\n}\n", want, x, y)
}

// functions, applied to expressions and to results of functions
//
//symgo:run C16 quick time=200 p.leaves=3
//symgo:run C16 thorough time=700 p.leaves=4
func HC16_calls() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	ls := []string{"x", "y", "4", "0"}[:symParam("leaves", 3)]
	a, b, d := vPick("a", ls), vPick("b", ls), vPick("c", ls)
	o1, o2, o3 := vPick("op1", vOps), vPick("op2", vOps[:3]), vPick("op3", vOps[:3])
	// f(u,v) = (u op1 v) op2 u ; f(f(a,b), c op3 b)
	f := func(u, v vFrac) vFrac { return vOp(o2, vOp(o1, u, v), u) }
	fa, fb, fd := vLeaf(a, x, y), vLeaf(b, x, y), vLeaf(d, x, y)
	want := f(f(fa, fb), vOp(o3, fd, fb))
	c16Prog("var r = f(f("+a+","+b+"),"+d+o3+b+")", "r",
		"func f(u,v){\nvar t = u"+o1+"v\nreturn t"+o2+"u\n}\n", want, x, y)
}

// the value returned by main is on a wire
//
//symgo:run C16 quick time=200 p.leaves=3
//symgo:run C16 thorough time=600 p.leaves=4
func HC16_return() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	ls := []string{"x", "y", "3", "0"}[:symParam("leaves", 3)]
	a, b, d := vPick("a", ls), vPick("b", ls), vPick("c", ls)
	o1, o2 := vPick("op1", vOps[:3]), vPick("op2", vOps)
	val := func(x, y *big.Int) vFrac {
		return vOp(o2, vOp(o1, vLeaf(a, x, y), vLeaf(b, x, y)), vLeaf(d, x, y))
	}
	want := val(x, y)
	p1, p2, p3 := val(vB(5), vB(11)), val(vB(7), vB(23)), val(vB(101), vB(29))
	if vMul(p1.num, p2.den).Cmp(vMul(p2.num, p1.den)) == 0 && vMul(p1.num, p3.den).Cmp(vMul(p3.num, p1.den)) == 0 {
		symStop() // a constant needs no wire
	}
	c, ok := vCompile("func main(x,y){\nreturn (" + a + o1 + b + ")" + o2 + d + "\n}\n")
	if !ok {
		symAssert(!vDefined(want), "the compiler rejects a valid program")
		return
	}
	w, err := vDense(c, x, y)
	if err != nil {
		symAssert(!vDefined(want), "no witness for a defined program")
		return
	}
	if want.num.Sign() == 0 {
		symStop()
	}
	found := false
	for _, v := range w {
		if !found && vIs(want, v) {
			found = true
		}
	}
	symAssert(found, "the returned value is on no wire")
}

// numbers are decimal, with or without leading zeros, and taken modulo q
//
//symgo:run C16 both time=100
func HC16_literals() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	d := vPick("digits", []string{"0", "1", "7", "8", "9", "10", "12", "18", "77", "377", "4095", "18446744073709551616", "18446744073709551617",
		"21888242871839275222246405745257275088548364400416034343698204186575808495617",
		"115792089237316195423570985008687907853269984665640564039457584007913129639936"})
	l := vPick("zeros", []string{"", "0", "00"}) + d
	v := vB(0)
	for _, c := range l {
		v = new(big.Int).Add(new(big.Int).Mul(v, vB(10)), vB(int64(c-'0')))
	}
	f := vInt(vMod(v))
	op := vPick("op", vOps)
	switch symChoose("place", 4) {
	case 0:
		c16Check("((x*"+l+")"+op+"y)", vOp(op, vOp("*", vInt(x), f), vInt(y)), x, y)
	case 1:
		c16Check("("+l+op+"(x*y))", vOp(op, f, vOp("*", vInt(x), vInt(y))), x, y)
	case 2:
		c16Check("((x+"+l+")*(y-"+l+"))", vOp("*", vOp("+", vInt(x), f), vOp("-", vInt(y), f)), x, y)
	case 3:
		c16Check("((x*x)"+op+"("+l+"+"+l+"))", vOp(op, vOp("*", vInt(x), vInt(x)), vOp("+", f, f)), x, y)
	}
}

// an equality of two expressions, constants included, holds exactly where a
// witness exists, in both representations
//
//symgo:run C16 both time=100
func HC16_equality() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	X, Y := vInt(x), vInt(y)
	n := func(k int64) vFrac { return vInt(vMod(vB(k))) }
	e := []struct {
		s string
		v vFrac
	}{
		{"0", n(0)}, {"1", n(1)}, {"5", n(5)}, {"x", X}, {"y", Y}, {"2*x", vOp("*", n(2), X)}, {"x-y", vOp("-", X, Y)},
		{"x*y", vOp("*", X, Y)}, {"2*(x*y)", vOp("*", n(2), vOp("*", X, Y))}, {"x/y", vOp("/", X, Y)}, {"(3*x)+7", vOp("+", vOp("*", n(3), X), n(7))},
		{"x-x", n(0)}, {"0*y", n(0)}, {"2-3", n(-1)}, {"0-x", vOp("-", n(0), X)},
	}
	a, b := e[symChoose("left", len(e))], e[symChoose("right", len(e))]
	c, ok := vCompile("func main(x,y){\nequal(" + a.s + "," + b.s + ")\nreturn\n}\n")
	symAssert(ok, "the compiler rejects a valid program")
	d := vOp("-", a.v, b.v)
	var err error
	if symBool("sparse") {
		_, err = vSparse(c, x, y)
	} else {
		_, err = vDense(c, x, y)
	}
	if err == nil {
		symAssert(vDefined(d), "a witness although the program is undefined")
		symAssert(d.num.Sign() == 0, "a witness although the equality fails")
	} else if vDefined(d) {
		symAssert(d.num.Sign() != 0, "no witness although the equality holds")
	}
}

// an input stands for its residue: negative inputs and inputs above the modulus
//
//symgo:run C16 both time=100
func HC16_unreduced() {
	in := make([]*big.Int, 3)
	v := make([]*big.Int, 3)
	for i := range in {
		v[i] = symBig("v", vQ())
		switch symChoose("shift", 3) {
		case 0:
			in[i] = new(big.Int).Set(v[i])
		case 1:
			in[i] = new(big.Int).Sub(v[i], vQ())
		case 2:
			in[i] = new(big.Int).Add(v[i], vQ())
		}
	}
	X, Y := vInt(v[0]), vInt(v[1])
	e := []struct {
		s string
		v vFrac
	}{
		{"x", X}, {"x*y", vOp("*", X, Y)}, {"x-y", vOp("-", X, Y)}, {"x/y", vOp("/", X, Y)}, {"(x*x)*(2*y)", vOp("*", vOp("*", X, X), vOp("*", vInt(vB(2)), Y))},
	}[symChoose("expr", 5)]
	c, ok := vCompile("func main(x,y,o){\n" + []string{"equal(" + e.s + ",o)\nreturn\n}\n", "equal(o," + e.s + ")\nreturn x*o\n}\n", "equal(3*o,3*(" + e.s + "))\nreturn\n}\n"}[symChoose("shape", 3)])
	symAssert(ok, "the compiler rejects a valid program")
	var err error
	var w []*big.Int
	if symBool("sparse") {
		w, err = vSparse(c, in...)
	} else {
		w, err = vDense(c, in...)
	}
	if err == nil {
		symAssert(vDefined(e.v), "a witness although the program is undefined")
		symAssert(vIs(e.v, v[2]), "a witness although the equality fails")
		r := c.p.GatesToR1CS(c.gates, false)
		for i := range r.L {
			symAssert(vRowOK(r, i, w), "the witness violates a constraint")
		}
	} else if vDefined(e.v) {
		symAssert(!vIs(e.v, v[2]), "no witness although the equality holds")
	}
}

// programs that are much longer than those of the exhaustive families
//
//symgo:run C16 quick p.n=33 time=100 steps=20000000
//symgo:run C16 thorough p.n=101 time=400 steps=60000000
func HC16_long() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	n := vLongSize("n", symParam("n", 17))
	body, e, rest, want := vLong(symChoose("form", vLongForms), n, x, y)
	c16Prog(body, e, rest, want, x, y)
}
