package circuitcompiler

import (
	"math/big"
	"strconv"

	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
)

func vQ() *big.Int { return utils.Field.ArithmeticField.Q }

func vB(n int64) *big.Int { return big.NewInt(n) }

func vMod(x *big.Int) *big.Int    { return new(big.Int).Mod(x, vQ()) }
func vMul(x, y *big.Int) *big.Int { return vMod(new(big.Int).Mul(x, y)) }
func vAdd(x, y *big.Int) *big.Int { return vMod(new(big.Int).Add(x, y)) }
func vSub(x, y *big.Int) *big.Int { return vMod(new(big.Int).Sub(x, y)) }

func vPick(name string, l []string) string { return l[symChoose(name, len(l))] }

// vFrac is the value of an expression as a fraction; undef lists the divisors
// the program divides by: the program is defined where none of them is zero
type vFrac struct {
	num, den *big.Int
	undef    []*big.Int
}

func vInt(x *big.Int) vFrac { return vFrac{num: x, den: vB(1)} }

func vUndef(a, b vFrac) []*big.Int {
	return append(append([]*big.Int{}, a.undef...), b.undef...)
}

func vIsOne(x *big.Int) bool { return x.Cmp(vB(1)) == 0 }

func vOp(op string, a, b vFrac) vFrac {
	u := vUndef(a, b)
	switch op {
	case "+":
		return vFrac{vAdd(vMul(a.num, b.den), vMul(b.num, a.den)), vMul(a.den, b.den), u}
	case "-":
		return vFrac{vSub(vMul(a.num, b.den), vMul(b.num, a.den)), vMul(a.den, b.den), u}
	case "*":
		return vFrac{vMul(a.num, b.num), vMul(a.den, b.den), u}
	case "/":
		return vFrac{vMul(a.num, b.den), vMul(a.den, b.num), append(u, b.num)}
	}
	panic("operator")
}

// vDefined: no divisor is zero
func vDefined(a vFrac) bool {
	for _, u := range a.undef {
		if u.Sign() == 0 {
			return false
		}
	}
	return true
}

// vIs: the fraction has the value x
func vIs(a vFrac, x *big.Int) bool {
	return vMul(a.den, x).Cmp(a.num) == 0
}

type vProg struct {
	p     *Program
	gates []*Gate
}

// vCompile compiles a program; ok is false if the compiler rejects it
func vCompile(code string) (r vProg, ok bool) {
	ok = !symPanics(func() {
		r.p = Parse(code, true)
		r.gates = r.p.Execute()
	})
	return
}

func vInputs(p *Program, in ...*big.Int) []InputArgument {
	return CombineInputs(p.GetMainCircuit().Inputs, in)
}

// vDense: constraint system and witness, dense form
func vDense(c vProg, in ...*big.Int) ([]*big.Int, error) {
	r := c.p.GatesToR1CS(c.gates, false)
	return CalculateWitness(r, vInputs(c.p, in...))
}

func vSparse(c vProg, in ...*big.Int) ([]*big.Int, error) {
	r := c.p.GatesToSparseR1CS(c.gates, false)
	return CalculateSparseWitness(r, vInputs(c.p, in...))
}

// vDot: sum of coefficient times wire over the wires of the row
func vDot(row, w []*big.Int) *big.Int {
	s := vB(0)
	for i := range row {
		if row[i].Sign() != 0 {
			s = new(big.Int).Add(s, new(big.Int).Mul(row[i], w[i]))
		}
	}
	return vMod(s)
}

// vExpX: the abscissa of k times the generator
func vExpX(k *big.Int) *big.Int { return new(bn256.G1).ScalarBaseMult(k).X() }

// vSatisfies: the wire vector satisfies row i
func vRowOK(r *ER1CS, i int, w []*big.Int) bool {
	l := vMul(vDot(r.L[i], w), vDot(r.R[i], w))
	e := false
	for _, c := range r.E[i] {
		if c.Sign() != 0 {
			e = true
		}
	}
	if e {
		l = vAdd(l, vExpX(vDot(r.E[i], w)))
	}
	return l.Cmp(vDot(r.O[i], w)) == 0
}

// vAssign: an arbitrary assignment to the wires that carries the inputs and
// satisfies every constraint
func vAssign(c vProg, r *ER1CS, tag string, in ...*big.Int) []*big.Int {
	w := make([]*big.Int, r.WitnessLength)
	w[0] = vB(1)
	for i, n := range c.p.GetMainCircuit().Inputs {
		w[r.indexMap[n]] = in[i]
	}
	for i := range w {
		if w[i] == nil {
			w[i] = symBig("w"+tag+strconv.Itoa(i), vQ())
		}
	}
	for i := range r.L {
		symAssume(vRowOK(r, i, w))
	}
	return w
}

var vLeaves = []string{"x", "y", "2", "0", "1"}
var vOps = []string{"+", "-", "*", "/"}

func vLeaf(l string, x, y *big.Int) vFrac {
	switch l {
	case "x":
		return vInt(x)
	case "y":
		return vInt(y)
	}
	n, _ := new(big.Int).SetString(l, 10)
	return vInt(vMod(n))
}

type vExpr struct {
	code string
	val  vFrac
}

// expressions that share products, sums and constants
func vExprs(x, y, z *big.Int) []vExpr {
	X, Y := vInt(x), vInt(y)
	xy := vOp("*", X, Y)
	return []vExpr{
		{"x*y", xy},
		{"z", vInt(z)},
		{"y", Y},
		{"x", X},
		{"y*x", xy},
		{"2*(y*x)", vOp("*", vInt(vB(2)), xy)},
		{"x+y", vOp("+", X, Y)},
		{"x*x", vOp("*", X, X)},
		{"addGateConstraint(x,y)", vOp("+", X, Y)},
		{"f(y,x)", xy},
		{"(x*y)*(x*y)", vOp("*", xy, xy)},
		{"3", vInt(vB(3))},
		{"(x-y)*(y-x)", vOp("*", vOp("-", X, Y), vOp("-", Y, X))},
		{"(2*x)*(3*y)", vOp("*", vInt(vB(6)), xy)},
		{"0", vInt(vB(0))},
	}
}

func vEq(a, b vFrac) bool { return vMul(a.num, b.den).Cmp(vMul(b.num, a.den)) == 0 }

const vRest = "func f(x,y){\nreturn x*y\n}\nfunc g(u,v){\nvar t = u-v\nreturn (t*3)+u\n}\n"

// vFamily chooses a program over x, y, z; n1..n3 limit the choices
func vFamily(n1, n2, n3 int) string {
	lv := []string{"x", "y", "3", "z", "(x*y)", "(2*z)", "0", "scalarBaseMultiply(x)"}
	st := []string{
		"", "equal(a,b)\n", "var c = a*b\n", "equal(a*b,z)\n", "var c = addGateConstraint(a,(b+1))\nequal(c,c)\n",
		"var c = g(a,b)\nequal((c*c),(3*z))\n", "var c = f(b,(0-a))\n", "var c = x/(a+1)\nvar d = c*b\n", "equal((a-b),(b-z))\n",
	}
	rt := []string{"", "a*b", "a", "(a-b)*(7*z)", "4*b", "(a+b)+z", "a/b", "f(a,b)-3"}
	o1 := vPick("o1", vOps[:3])
	b1, b2, b3 := vPick("l1", lv[:n1]), vPick("l2", lv[:n1]), vPick("l3", lv[:n1])
	s := vPick("s", st[:n2])
	r := vPick("r", rt[:n3])
	return "var a = " + b1 + o1 + b2 + "\nvar b = " + b3 + "*(1-a)\n" + s + "return " + r + "\n"
}

// vExpect: main(x,y,o) with the body, which asserts that o is the computed
// value, has a witness exactly if o is the value wanted
func vExpect(body, rest string, want vFrac, x, y *big.Int) {
	o := symBig("o", vQ())
	c, ok := vCompile("func main(x,y,o){\n" + body + "}\n" + rest)
	if !ok {
		symAssert(!vDefined(want), "the compiler rejects a valid program")
		return
	}
	_, err := vDense(c, x, y, o)
	if err == nil {
		symAssert(vDefined(want), "a witness although the program is undefined")
		symAssert(vIs(want, o), "the program computes another value")
	} else if vDefined(want) {
		symAssert(!vIs(want, o), "no witness for a correct statement")
	}
}

func vRejects(body, rest, what string) {
	_, ok := vCompile("func main(x,y,o){\n" + body + "}\n" + rest)
	symAssert(!ok, what)
}

func vNum(n int) string { return strconv.Itoa(n) }

func vCmp(op string, a, b int) bool {
	switch op {
	case "==":
		return a == b
	case "!=":
		return a != b
	case "<":
		return a < b
	case "<=":
		return a <= b
	case ">":
		return a > b
	}
	return a >= b
}

var vCmpOps = []string{"<", "==", "<=", "!=", ">", ">="}

// vSmallField replaces the field by one of a small prime order
func vSmallField(q int64) {
	utils.Field = utils.PrepareFields(vB(q))
	field = utils.NewFq(vB(q))
}

func vRestoreField(f utils.Fields, g *utils.Fq) func() {
	return func() { utils.Field, field = f, *g }
}
