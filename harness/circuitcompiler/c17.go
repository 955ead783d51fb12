package circuitcompiler

import "math/big"

// c17Check: every assignment that satisfies the constraints of a program which
// asserts e == o has o == e
func c17Check(body, e, rest string, want vFrac, x, y *big.Int) {
	o := symBig("o", vQ())
	c, ok := vCompile("func main(x,y,o){\n" + body + "\nequal(" + e + ",o)\nreturn\n}\n" + rest)
	if !ok {
		symAssert(!vDefined(want), "the compiler rejects a valid program")
		return
	}
	r := c.p.GatesToR1CS(c.gates, false)
	vAssign(c, r, "", x, y, o)
	symAssert(!vDefined(want) || vIs(want, o), "the constraints admit a wrong value")
}

//symgo:run C17 both time=200
func HC17_binary() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	a, b := vPick("a", vLeaves), vPick("b", vLeaves)
	op := vPick("op", vOps)
	c17Check("", "("+a+op+b+")", "", vOp(op, vLeaf(a, x, y), vLeaf(b, x, y)), x, y)
}

//symgo:run C17 quick time=200 p.leaves=3
//symgo:run C17 thorough time=700 p.leaves=5
func HC17_three() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	ls := vLeaves[:symParam("leaves", 3)]
	a, b, d := vPick("a", ls), vPick("b", ls), vPick("c", ls)
	o1, o2 := vPick("op1", vOps), vPick("op2", vOps)
	fa, fb, fd := vLeaf(a, x, y), vLeaf(b, x, y), vLeaf(d, x, y)
	if symChoose("group", 2) == 0 {
		c17Check("", "(("+a+o1+b+")"+o2+d+")", "", vOp(o2, vOp(o1, fa, fb), fd), x, y)
	} else {
		c17Check("", "("+a+o1+"("+b+o2+d+"))", "", vOp(o1, fa, vOp(o2, fb, fd)), x, y)
	}
}

//symgo:run C17 quick time=200 p.leaves=2
//symgo:run C17 thorough time=700 p.leaves=3
func HC17_four() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	ls := []string{"x", "y", "3"}[:symParam("leaves", 2)]
	a, b, d, e := vPick("a", ls), vPick("b", ls), vPick("c", ls), vPick("d", ls)
	o1, o2, o3 := vPick("op1", vOps), vPick("op2", vOps), vPick("op3", vOps)
	l := vOp(o1, vLeaf(a, x, y), vLeaf(b, x, y))
	r := vOp(o3, vLeaf(d, x, y), vLeaf(e, x, y))
	c17Check("", "(("+a+o1+b+")"+o2+"("+d+o3+e+"))", "", vOp(o2, l, r), x, y)
}

// a value used several times
//
//symgo:run C17 quick time=200 p.leaves=2
//symgo:run C17 thorough time=700 p.leaves=4
func HC17_reuse() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	ls := []string{"x", "y", "5", "0"}[:symParam("leaves", 2)]
	l1, l2, l3 := vPick("l1", ls), vPick("l2", ls), vPick("l3", ls)
	o1, o2, o3, o4 := vPick("op1", vOps[:3]), vPick("op2", vOps[1:]), vPick("op3", vOps[:3]), vPick("op4", vOps[:3])
	a := vOp(o1, vLeaf(l1, x, y), vLeaf(l2, x, y))
	c := vLeaf(l3, x, y)
	b, d := vOp(o2, a, c), vOp(o3, c, a)
	c17Check("var c = "+l3+"\nvar a = "+l1+o1+l2+"\nvar b = a"+o2+"c\nvar d = c"+o3+"a",
		"b"+o4+"d", "", vOp(o4, b, d), x, y)
}

// every equality assertion is enforced, whatever products, sums, assertions
// and functions occur beside it
//
//symgo:run C17 quick time=250 p.n=9 p.m=5
//symgo:run C17 thorough time=750 p.n=15 p.m=9
func HC17_asserts() {
	x, y, z := symBig("x", vQ()), symBig("y", vQ()), symBig("z", vQ())
	es := vExprs(x, y, z)
	n, m := symParam("n", 8), symParam("m", 5)
	a, b := es[symChoose("a", n)], es[symChoose("b", n)]
	d, e := es[symChoose("c", m)], es[symChoose("d", m)]
	code := "func main(x,y,z){\n"
	if symChoose("pre", 2) == 1 {
		code += "var p = " + a.code + "\n"
	}
	code += "equal(" + a.code + "," + b.code + ")\nequal(" + d.code + "," + e.code + ")\nreturn " + d.code + "\n}\nfunc f(x,y){\nreturn x*y\n}\n"
	c, ok := vCompile(code)
	symAssert(ok, "the compiler rejects a valid program")
	r := c.p.GatesToR1CS(c.gates, false)
	vAssign(c, r, "", x, y, z)
	symAssert(vEq(a.val, b.val), "the first equality is not enforced")
	symAssert(vEq(d.val, e.val), "the second equality is not enforced")
}

// all wires are determined by the inputs: the value returned cannot be changed
//
//symgo:run C17 quick time=250 p.leaves=3
//symgo:run C17 thorough time=700 p.leaves=4
func HC17_unique() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	ls := []string{"x", "y", "3", "(x*y)"}[:symParam("leaves", 3)]
	a, b, d := vPick("a", ls), vPick("b", ls), vPick("c", ls)
	o1, o2 := vPick("op1", vOps), vPick("op2", vOps)
	k := vPick("k", []string{"1", "4", "x"})
	leaf := func(l string) vFrac {
		if l == "(x*y)" {
			return vInt(vMul(x, y))
		}
		return vLeaf(l, x, y)
	}
	want := vOp("*", vOp(o2, vOp(o1, leaf(a), leaf(b)), leaf(d)), leaf(k))
	c, ok := vCompile("func main(x,y){\nvar t = g(" + a + o1 + b + ")\nvar s = addGateConstraint(t,1)\nreturn ((s-1)" + o2 + d + ")*" + k + "\n}\nfunc g(u){\nreturn u\n}\n")
	if !ok {
		symAssert(!vDefined(want), "the compiler rejects a valid program")
		return
	}
	r := c.p.GatesToR1CS(c.gates, false)
	v := vAssign(c, r, "a", x, y)
	w := vAssign(c, r, "b", x, y)
	if !vDefined(want) {
		symStop()
	}
	for i := range v {
		symAssert(v[i].Cmp(w[i]) == 0, "two assignments satisfy the constraints")
	}
}

// programs that are much longer than those of the exhaustive families
//
//symgo:run C17 quick p.n=33 time=100 steps=20000000
//symgo:run C17 thorough p.n=101 time=400 steps=60000000
func HC17_long() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	n := vLongSize("n", symParam("n", 17))
	body, e, rest, want := vLong(symChoose("form", vLongForms), n, x, y)
	c17Check(body, e, rest, want, x, y)
}
