package circuitcompiler

import (
	"math/big"

	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
)

// programs that assign to inputs, globals, captured variables, arrays and
// functions, loop, branch and split
func c26Program(n1, n2, n3 int) string {
	head := vPick("head", []string{"", "var k = 5\n", "var k = 2\nfunc up(a){\nk = k+a\nreturn k\n}\n"}[:n1])
	k := "4"
	if head != "" {
		k = "k"
	}
	set := vPick("set", []string{
		"x = x*x\n", "var t = x*y\n", "a[1] = a[0]*y\n", "var g = f(3)\ng = g(x)\nx = g\n",
		"var i = 0\nfor (i<3;i=i+1){\nx = x*(y+i)\n}\n", "if " + k + "<5{\nx = y*y\n}else{\ny = x*3\n}\n",
		"var g = func(u){\nx = x*u\nreturn x\n}\nvar s = g(y)\nvar t = g(s)\n", "var c[] = {x,y,2}\nc[0] = c[1]*c[2]\nx = c[0]\n",
		"SPLIT(y)\nx = y[0]*x\n", "x = f(f(x,y),addGateConstraint(y,x))\n", "equal(x*y,a[0])\ny = x/(y+1)\n",
		"var h = f\nx = h(x,x)\nvar t = r(3,x)\n",
		"var t = ((3*x)+((5*y)+(7*a[0])))*y\nx = ((3*x)+((5*y)+(7*a[0])))*t\n",
	}[:n2])
	set2 := ""
	if head == "var k = 5\n" {
		set2 = "k = k+x\n"
	} else if head != "" {
		set2 = "var z = up(1)\ny = z*x\n"
	}
	ret := vPick("ret", []string{"x*y", "(3*x)+((5*y)+(7*a[0]))", "(x+" + k + ")*a[1]", "f(x,y)-(2*x)", "7*x"}[:n3])
	return head + "func main(x,a[2],y){\n" + vPick("pub", []string{"", "public{y,a[0]}\n"}) + set + set2 + "return " + ret + "\n}\n" +
		"func f(u,v){\nu = u*v\nreturn u+v\n}\nfunc r(n,b){\nif n==0{\nreturn b\n}\nreturn b*r(n-1,b)\n}\n"
}

func c26Same(a, b *ER1CS, what string) {
	symAssert(a.WitnessLength == b.WitnessLength && a.NumberOfGates == b.NumberOfGates && len(a.L) == len(b.L), "another size of the constraint system"+what)
	for n, i := range a.indexMap {
		j, ok := b.indexMap[n]
		symAssert(ok && i == j, "another layout of the wires"+what)
	}
	eq := func(m, n [][]*big.Int) {
		for i := range m {
			for j := range m[i] {
				symAssert(m[i][j].Cmp(n[i][j]) == 0, "another constraint"+what)
			}
		}
	}
	eq(a.L, b.L)
	eq(a.R, b.R)
	eq(a.E, b.E)
	eq(a.O, b.O)
}

func c26Sparse(a, b *ER1CSSparse, what string) {
	symAssert(a.WitnessLength == b.WitnessLength && a.NumberOfGates == b.NumberOfGates && len(a.L) == len(b.L), "another size of the constraint system"+what)
	for i := range a.L {
		for j := 0; j < a.WitnessLength; j++ {
			for _, p := range [][2]func(uint) (*big.Int, error){{a.L[i].Get, b.L[i].Get}, {a.R[i].Get, b.R[i].Get}, {a.E[i].Get, b.E[i].Get}, {a.O[i].Get, b.O[i].Get}} {
				u, e := p[0](uint(j))
				v, g := p[1](uint(j))
				symAssert((e == nil) == (g == nil), "another constraint"+what)
				if e == nil && g == nil {
					symAssert(u.Cmp(v) == 0, "another constraint"+what)
				}
			}
		}
	}
}

// c26Run compares the systems of a first compilation with the ones after the
// history chosen
func c26Run(code string, values bool) {
	var p *Program
	var gates []*Gate
	if symPanics(func() { p = Parse(code, true); gates = p.Execute() }) {
		symAssert(symPanics(func() { Parse(code, true).Execute() }), "a rejected program is accepted")
		return
	}
	d := p.GatesToR1CS(gates, false)
	s := p.GatesToSparseR1CS(gates, false)
	q, what := p, " if the gates are converted again"
	switch symChoose("again", 4) {
	case 0:
	case 1:
		what = " if the program is run again"
		gates = p.Execute()
	case 2:
		what = " if the program is run three times"
		p.Execute()
		gates = p.Execute()
	case 3:
		what = " if the program is compiled again"
		q = Parse(code, true)
		gates = q.Execute()
	}
	var d2 *ER1CS
	var s2 *ER1CSSparse
	if symChoose("sparsefirst", 2) == 1 {
		s2 = q.GatesToSparseR1CS(gates, false)
		d2 = q.GatesToR1CS(gates, false)
	} else {
		d2 = q.GatesToR1CS(gates, false)
		s2 = q.GatesToSparseR1CS(gates, false)
	}
	symAssert(q.GlobalInputCount() == p.GlobalInputCount(), "another number of public inputs"+what)
	c26Same(d, d2, what)
	c26Sparse(s, s2, what)
	if values {
		x, a0, a1, y := symBig("x", vQ()), symBig("a0", vQ()), symBig("a1", vQ()), symBig("y", vQ())
		w, e := CalculateWitness(d, vInputs(p, x, a0, a1, y))
		v, f := CalculateWitness(d2, vInputs(q, x, a0, a1, y))
		symAssert((e == nil) == (f == nil), "another decision about the inputs"+what)
		if e == nil && f == nil {
			for i := range w {
				symAssert(w[i].Cmp(v[i]) == 0, "another witness"+what)
			}
		}
	}
}

// compiling, running and converting again gives the same system, whose
// witnesses are the same for all inputs
//
//symgo:run C26 quick time=200 p.n1=3 p.n2=13 p.n3=4
//symgo:run C26 thorough time=600 p.n1=3 p.n2=13 p.n3=5
func HC26_again() {
	defer vRestoreField(utils.Field, &field)()
	vSmallField(13)
	c26Run(c26Program(symParam("n1", 2), symParam("n2", 8), symParam("n3", 2)), true)
}

// the order in which the entries of a map are visited does not matter
//
//symgo:run C26 quick time=200 maporder=1 mapdev=1 p.n2=13
//symgo:run C26 thorough time=400 maporder=1 mapdev=2 p.n2=13
func HC26_maporder() {
	defer vRestoreField(utils.Field, &field)()
	vSmallField(13)
	c26Run(c26Program(1, symParam("n2", 4), 2), false)
}

// long programs
//
//symgo:run C26 quick time=100 p.n=11 steps=40000000
//symgo:run C26 thorough time=300 p.n=33 steps=90000000
func HC26_long() {
	n := vLongSize("n", symParam("n", 11))
	body, e, rest, _ := vLong(symChoose("form", vLongForms), n, vB(2), vB(3))
	c26Run("func main(x,y){\n"+body+"return "+e+"\n}\n"+rest, false)
}

// long programs and the order in which the entries of a map are visited
//
//symgo:run C26 quick time=150 maporder=1 mapdev=1 p.n=4 steps=40000000
//symgo:run C26 thorough time=400 maporder=1 mapdev=1 p.n=7 steps=90000000
func HC26_longorder() {
	HC26_long()
}
