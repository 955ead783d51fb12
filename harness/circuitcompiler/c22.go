package circuitcompiler

import (
	"math/big"

	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
)

func vBit(v *big.Int, i int) vFrac { return vInt(vB(int64(v.Bit(i)))) }

type vSplit struct {
	body, arg string
	val       func(x, y *big.Int) *big.Int
}

// ways to name the value that is split; the bits are read from the variable
var vSplits = []vSplit{
	{"SPLIT(x)\n", "x", func(x, y *big.Int) *big.Int { return x }},
	{"var a = x*y\nSPLIT(a)\n", "a", func(x, y *big.Int) *big.Int { return vMul(x, y) }},
	{"var a = 3*x\nSPLIT(a)\n", "a", func(x, y *big.Int) *big.Int { return vMul(vB(3), x) }},
	{"SPLIT(x)\nSPLIT(y)\nSPLIT(x)\n", "x", func(x, y *big.Int) *big.Int { return x }},
	{"var a = (0-1)*(x*y)\nvar c = a*y\nSPLIT(a)\nSPLIT(c)\n", "a", func(x, y *big.Int) *big.Int { return vSub(vB(0), vMul(x, y)) }},
	{"var a = y/3\nSPLIT(y)\nSPLIT(a)\n", "a", func(x, y *big.Int) *big.Int {
		return vMul(y, new(big.Int).ModInverse(vB(3), vQ()))
	}},
}

// the digits of the value: the program reads digit i
//
//symgo:run C22 quick time=100 p.s=4
//symgo:run C22 thorough time=300 p.s=6
func HC22_digits() {
	defer vRestoreField(utils.Field, &field)()
	vSmallField([]int64{13, 7}[symChoose("q", 2)])
	x := vB(int64(symConcInt(symInt("x", 0, int(vQ().Int64())-1))))
	y := symBig("y", vQ())
	s := vSplits[symChoose("split", symParam("s", 4))]
	if s.arg == "a" && s.body[8] != '3' {
		y = vB(int64(symConcInt(symInt("yc", 0, int(vQ().Int64())-1))))
	}
	n := vQ().BitLen()
	i := symChoose("i", n)
	v := s.val(x, y)
	vExpect(s.body+"equal("+s.arg+"["+vNum(i)+"],o)\nreturn\n", "", vBit(v, i), x, y)
}

// vForced: every assignment that satisfies the constraints of the program has
// one of the values at o
func vForced(body, e string, x, y *big.Int, is func(o *big.Int) bool, what string) {
	o := symBig("o", vQ())
	c, ok := vCompile("func main(x,y,o){\n" + body + "equal(" + e + ",o)\nreturn\n}\n")
	symAssert(ok, "the compiler rejects a valid program")
	r := c.p.GatesToR1CS(c.gates, false)
	vAssign(c, r, "", x, y, o)
	symReach("satisfiable")
	symAssert(is(o), what)
}

// the constraints admit no other digits than those of the value, or of the
// value plus the modulus where this needs no more digits
//
//symgo:run C22 quick time=100 p.s=3
//symgo:run C22 thorough time=400 p.s=6
func HC22_forced() {
	defer vRestoreField(utils.Field, &field)()
	vSmallField([]int64{7, 13}[symChoose("q", 2)])
	x := vB(int64(symConcInt(symInt("x", 0, int(vQ().Int64())-1))))
	y := vB(int64(symConcInt(symInt("y", 1, 3))))
	s := vSplits[symChoose("split", symParam("s", 3))]
	v := s.val(x, y)
	n := vQ().BitLen()
	if i := symChoose("i", n+1); i < n {
		vForced(s.body, s.arg+"["+vNum(i)+"]", x, y, func(o *big.Int) bool {
			u := new(big.Int).Add(v, vQ())
			return o.Cmp(vB(int64(v.Bit(i)))) == 0 || u.BitLen() <= n && o.Cmp(vB(int64(u.Bit(i)))) == 0
		}, "the constraints admit another digit")
		return
	}
	e := s.arg + "[0]"
	for i := 1; i < n; i++ {
		e = "(" + e + ")+(" + vNum(1<<uint(i)) + "*" + s.arg + "[" + vNum(i) + "])"
	}
	vForced(s.body, e, x, y, func(o *big.Int) bool { return o.Cmp(v) == 0 }, "the digits do not add up to the value")
}

// the field of the repository: any digit of any value
//
//symgo:run C22 quick time=200 steps=40000000 p.i=2
//symgo:run C22 thorough time=400 steps=40000000 p.i=6
func HC22_field() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	s := []string{"SPLIT(x)\n", "var a = 5*x\nSPLIT(a)\n"}[symChoose("split", 2)]
	arg := []string{"x", "a"}[symChoose("split2", 2)]
	if s[0] == 'S' != (arg == "x") {
		symStop()
	}
	i := []int{253, 0, 1, 2, 128, 252}[symChoose("i", symParam("i", 2))]
	vForced(s, arg+"["+vNum(i)+"]", x, y, func(o *big.Int) bool { return o.Sign() == 0 || o.Cmp(vB(1)) == 0 }, "the constraints admit a digit that is neither 0 nor 1")
}

// the field of the repository: the digits of a value, in both witness solvers
//
//symgo:run C22 quick time=200 steps=40000000 p.v=3
//symgo:run C22 thorough time=400 steps=40000000 p.v=7
func HC22_values() {
	one := vB(1)
	q1 := new(big.Int).Sub(vQ(), one)
	var x *big.Int
	switch symChoose("value", symParam("v", 3)) {
	case 0: // all small values
		x = symBigRange("x", vB(0), vB(15))
	case 1:
		x = q1
	case 2: // all values around a power of two
		x = new(big.Int).Add(new(big.Int).Lsh(one, 253), symBigRange("x", vB(0), vB(7)))
	case 3:
		x = new(big.Int).Sub(new(big.Int).Lsh(one, 253), one)
	case 4:
		x = new(big.Int).Rsh(q1, 1)
	case 5:
		x = new(big.Int).Sub(new(big.Int).Lsh(one, 128), one)
	case 6:
		x = vB(0)
	}
	y := symBig("y", vQ())
	c, ok := vCompile("func main(x,y,o){\nSPLIT(x)\nequal((((x[0]+(2*x[1]))+(4*x[2]))+(8*x[253])),o)\nreturn y*x[7]\n}\n")
	symAssert(ok, "the compiler rejects a valid program")
	o := symBig("o", vB(16))
	want := vB(int64(x.Bit(0) + 2*x.Bit(1) + 4*x.Bit(2) + 8*x.Bit(253)))
	var w []*big.Int
	var err error
	if symChoose("solver", 2) == 0 {
		w, err = vDense(c, x, y, o)
	} else {
		w, err = vSparse(c, x, y, o)
	}
	symAssert((err == nil) == (o.Cmp(want) == 0), "the digits of the value")
	if err == nil {
		r := c.p.GatesToR1CS(c.gates, false)
		for i := range r.L {
			symAssert(vRowOK(r, i, w), "the witness violates a constraint")
		}
	}
}

// what is split is one wire or a multiple of one; nothing else is accepted and
// then split in part
//
//symgo:run C22 both time=60
func HC22_reject() {
	defer vRestoreField(utils.Field, &field)()
	vSmallField(7)
	for _, b := range []string{"SPLIT(x+y)\n", "SPLIT(5)\n", "SPLIT(x,y)\n", "SPLIT()\n", "var a = x-y\nSPLIT(a)\n", "SPLIT(x)\nequal(x[3],o)\n", "equal(x[1],o)\n", "SPLIT(y)\nequal(x[1],o)\n"} {
		vRejects(b+"return x*y\n", "", "accepted: "+b)
	}
}

// digits of the argument of a function
//
//symgo:run C22 both time=60
func HC22_function() {
	defer vRestoreField(utils.Field, &field)()
	vSmallField(7)
	x := vB(int64(symConcInt(symInt("x", 0, 6))))
	y := vB(int64(symConcInt(symInt("y", 0, 6))))
	i := symChoose("i", 3)
	arg := symChoose("arg", 3)
	v := []*big.Int{x, vMul(x, y), vMul(vB(2), y)}[arg]
	vExpect("equal(f("+[]string{"x", "x*y", "2*y"}[arg]+",y),o)\nreturn\n",
		"func f(u,y){\nSPLIT(u)\nreturn (u["+vNum(i)+"]*y)+u\n}\n", vOp("+", vOp("*", vBit(v, i), vInt(y)), vInt(v)), x, y)
}

// an input stands for its residue: the digits of a negative input, or of one
// above the modulus, are those of the residue
//
//symgo:run C22 both time=100 steps=40000000
func HC22_unreduced() {
	defer vRestoreField(utils.Field, &field)()
	vSmallField([]int64{7, 13}[symChoose("q", 2)])
	q := vQ()
	v := vB(int64(symConcInt(symInt("x", 0, int(q.Int64())-1))))
	x := v
	switch symChoose("shift", 3) {
	case 0:
		x = new(big.Int).Sub(v, q)
	case 1:
		x = new(big.Int).Add(v, q)
	case 2:
		x = new(big.Int).Add(v, new(big.Int).Lsh(q, 40))
	}
	y := symBig("y", q)
	s := symChoose("split", 2)
	c, ok := vCompile("func main(x,y){\n" + []string{"SPLIT(x)\nreturn y*x[1]", "var a = 3*x\nSPLIT(a)\nreturn y*a[1]"}[s] + "\n}\n")
	symAssert(ok, "the compiler rejects a valid program")
	if s == 1 {
		v = vMul(v, vB(3))
	}
	var w []*big.Int
	var err error
	if symChoose("solver", 2) == 0 {
		w, err = vDense(c, x, y)
	} else {
		w, err = vSparse(c, x, y)
	}
	symAssert(err == nil, "no witness for the digits of a negative or unreduced input")
	r := c.p.GatesToR1CS(c.gates, false)
	for i := range r.L {
		symAssert(vRowOK(r, i, w), "the witness violates a constraint")
	}
	for n, i := range c.gates {
		if i.gateType == zeroOrOneGate {
			u := w[r.indexMap[i.identifier]]
			symAssert(u.Sign() == 0 || u.Cmp(vB(1)) == 0, "a digit that is neither 0 nor 1")
			_ = n
		}
	}
	symAssert(vMod(w[len(w)-1]).Cmp(vMul(y, vB(int64(v.Bit(1))))) == 0, "the digit of the residue")
}

// several values split in one program, in the program itself, by a function
// that is called several times, and read in a loop
//
//symgo:run C22 quick time=100 p.q=1 p.f=6
//symgo:run C22 thorough time=300 p.q=2 p.f=10
func HC22_several() {
	defer vRestoreField(utils.Field, &field)()
	vSmallField([]int64{7, 13}[symChoose("q", symParam("q", 1))])
	q := int(vQ().Int64())
	x := vB(int64(symConcInt(symInt("x", 0, q-1))))
	y := vB(int64(symConcInt(symInt("y", 0, q-1))))
	a := vMul(x, y)
	b := vMul(a, x)
	c := vMul(vMul(b, y), vB(3))
	n := vQ().BitLen()
	i := symChoose("i", n)
	num := vNum(i)
	names, vals := []string{"x", "y", "a", "b", "c"}, []*big.Int{x, y, a, b, c}
	head := "var a = x*y\nvar b = a*x\nvar c = 3*(b*y)\n"
	switch f := []int{5, 6, 0, 7, 8, 9, 3, 1, 2, 4}[symChoose("form", symParam("f", 6))]; f {
	case 0, 1, 2, 3, 4: // all of them, in rotated order
		body := head
		for j := range names {
			body += "SPLIT(" + names[(j+f)%5] + ")\n"
		}
		w := vB(0)
		e := "0"
		for j := range names {
			e = "(" + vNum(1<<uint(j)) + "*" + names[j] + "[" + num + "])+(" + e + ")"
			w = vAdd(w, vMul(vB(1<<uint(j)), vB(int64(vals[j].Bit(i)))))
		}
		vExpect(body+"equal("+e+",o)\nreturn\n", "", vInt(w), x, y)
	case 5: // one function, several arguments, one of them twice
		w := vMod(vB(int64(x.Bit(i) + 2*y.Bit(i) + 4*a.Bit(i) + 8*x.Bit(i))))
		vExpect("equal((f(x)+((2*f(y))+((4*f(x*y))+(8*f(x))))),o)\nreturn\n",
			"func f(u){\nSPLIT(u)\nreturn u["+num+"]\n}\n", vInt(w), x, y)
	case 7: // the variable is split, assigned and split again
		w := vB(int64(y.Bit(i) + 2*x.Bit(i)))
		vExpect("var a = x\nSPLIT(a)\nvar d = 2*a["+num+"]\na = y\nSPLIT(a)\nequal(a["+num+"]+d,o)\nreturn\n", "", vInt(vMod(w)), x, y)
	case 8: // the parameter of a function has the name of a split variable
		w := vB(int64(y.Bit(i) + 2*x.Bit(i)))
		vExpect("SPLIT(x)\nvar d = f(y)\nequal(d+(2*x["+num+"]),o)\nreturn\n", "func f(x){\nSPLIT(x)\nreturn x["+num+"]\n}\n", vInt(vMod(w)), x, y)
	case 9: // in a loop, another value each time
		w := vB(int64(x.Bit(i) + 2*a.Bit(i)))
		u := vMul(a, y)
		w.Add(w, vB(int64(4*u.Bit(i))))
		vExpect("var a = x\nvar k = 0\nvar r = 0\nvar m = 1\nfor (k<3; k=k+1){\nSPLIT(a)\nr = r+(m*a["+num+"])\nm = 2*m\na = a*y\n}\nequal(r,o)\nreturn\n", "", vInt(vMod(w)), x, y)
	case 6: // bits that meet in a product
		w := vMul(vB(int64(x.Bit(i))), vAdd(vB(int64(b.Bit(i))), vB(int64(a.Bit(0)))))
		vExpect(head+"SPLIT(b)\nSPLIT(x)\nvar d = x["+num+"]*b["+num+"]\nSPLIT(a)\nequal((d+(x["+num+"]*a[0])),o)\nreturn\n", "", vInt(w), x, y)
	}
}
