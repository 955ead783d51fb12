package circuitcompiler

import (
	"math/big"

	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
)

func c19Rows(d [][]*big.Int, s []*utils.AvlTree, what string) {
	symAssert(len(d) == len(s), "dense and sparse differ in the number of rows of "+what)
	for i := range d {
		for _, n := range s[i].DecendingNodes() {
			symAssert(n.Key < uint(len(d[i])), "sparse row of "+what+" is longer than the witness")
		}
		for j := range d[i] {
			v, err := s[i].Get(uint(j))
			if err != nil {
				v = vB(0)
			}
			symAssert(vMod(d[i][j]).Cmp(vMod(v)) == 0, "dense and sparse differ in an entry of "+what)
		}
	}
}

// dense and sparse system of a program, and the witnesses of both solvers
func c19Compare(code string, randomize bool, in ...*big.Int) {
	c, ok := vCompile(code)
	if !ok {
		return
	}
	d := c.p.GatesToR1CS(c.gates, randomize)
	s := c.p.GatesToSparseR1CS(c.gates, randomize)
	symAssert(d.NumberOfGates == s.NumberOfGates && d.WitnessLength == s.WitnessLength, "dense and sparse differ in size")
	symAssert(len(d.indexMap) == d.WitnessLength && len(s.indexMap) == s.WitnessLength, "index map and witness differ in size")
	for k, v := range d.indexMap {
		w, ex := s.indexMap[k]
		symAssert(ex && v == w, "dense and sparse differ in the wire of a variable")
	}
	symAssert(len(d.splitmap) == len(s.splitmap), "dense and sparse differ in split variables")
	c19Rows(d.L, s.L, "L")
	c19Rows(d.R, s.R, "R")
	c19Rows(d.E, s.E, "E")
	c19Rows(d.O, s.O, "O")
	if randomize {
		w, err := CalculateWitness(d, vInputs(c.p, in...))
		if err == nil {
			c19Satisfied(d, w)
		}
		w, err = CalculateSparseWitness(s, vInputs(c.p, in...))
		if err == nil {
			c19Satisfied(d, w)
		}
		return
	}
	c19Solve(d, s, vInputs(c.p, in...))
}

func c19Satisfied(d *ER1CS, w []*big.Int) {
	symAssert(len(w) == d.WitnessLength, "witness of wrong length")
	symAssert(w[0].Cmp(vB(1)) == 0, "the first wire is not one")
	for i := range d.L {
		symAssert(vRowOK(d, i, w), "the witness does not satisfy a constraint")
	}
}

func c19Solve(d *ER1CS, s *ER1CSSparse, in []InputArgument) {
	w, err := CalculateWitness(d, in)
	v, err2 := CalculateSparseWitness(s, in)
	symAssert((err == nil) == (err2 == nil), "only one of the solvers finds a witness")
	if err != nil || err2 != nil {
		return
	}
	c19Satisfied(d, w)
	symAssert(len(w) == len(v), "witnesses differ in length")
	for i := range w {
		symAssert(w[i].Cmp(v[i]) == 0, "the witnesses differ")
	}
}

//symgo:run C19 quick time=200 p.n1=2 p.n2=7 p.n3=5
//symgo:run C19 thorough time=700 p.n1=4 p.n2=9 p.n3=8
func HC19_programs() {
	x, y, z := symBig("x", vQ()), symBig("y", vQ()), symBig("z", vQ())
	code := "func main(x,y,z){\n" + vFamily(symParam("n1", 2), symParam("n2", 5), symParam("n3", 4)) + "}\n" + vRest
	c19Compare(code, false, x, y, z)
}

//symgo:run C19 quick time=200 p.n1=2 p.n2=4 p.n3=2
//symgo:run C19 thorough time=700 p.n1=4 p.n2=6 p.n3=4
func HC19_randomized() {
	x, y, z := symBig("x", vQ()), symBig("y", vQ()), symBig("z", vQ())
	code := "func main(x,y,z){\n" + vFamily(symParam("n1", 2), symParam("n2", 4), symParam("n3", 2)) + "}\n" + vRest
	c19Compare(code, true, x, y, z)
}

type c19Row struct{ l, r, o map[int]*big.Int }

// system built from rows; wires: one, x, y, u, v
func c19System(rows []c19Row, n int) (*ER1CS, *ER1CSSparse) {
	im := map[string]int{"1": 0, "x": 1, "y": 2, "u": 3, "v": 4}
	for k, i := range im {
		if i >= n {
			delete(im, k)
		}
	}
	d := &ER1CS{indexMap: im, WitnessLength: n, NumberOfGates: len(rows), splitmap: map[string][]int{}}
	s := &ER1CSSparse{indexMap: im, WitnessLength: n, NumberOfGates: len(rows), splitmap: map[string][]int{}}
	conv := func(m map[int]*big.Int) ([]*big.Int, *utils.AvlTree) {
		a, t := utils.ArrayOfBigZeros(n), utils.NewAvlTree()
		for i := 0; i < n; i++ {
			if v, ok := m[i]; ok {
				a[i] = v
				if v.Sign() != 0 {
					t.Insert(uint(i), v)
				}
			}
		}
		return a, t
	}
	for _, r := range rows {
		l, sl := conv(r.l)
		rr, sr := conv(r.r)
		e, se := conv(nil)
		o, so := conv(r.o)
		d.L, d.R, d.E, d.O = append(d.L, l), append(d.R, rr), append(d.E, e), append(d.O, o)
		s.L, s.R, s.E, s.O = append(s.L, sl), append(s.R, sr), append(s.E, se), append(s.O, so)
	}
	return d, s
}

// one row with arbitrary coefficients on chosen wires; u is unknown
//
//symgo:run C19 quick time=200 p.k=2
//symgo:run C19 thorough time=700 p.k=3
func HC19_row() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	k := symParam("k", 2)
	pick := func(n string) map[int]*big.Int {
		m := map[int]*big.Int{}
		ws := [][]int{{0, 1}, {1, 3}, {2, 3}, {0, 1, 2}, {0, 1, 3}, {3, 4}}[symChoose(n, 2*k)]
		for _, w := range ws {
			m[w] = symBig(n+string(rune('0'+w)), vQ())
		}
		return m
	}
	d, s := c19System([]c19Row{{pick("l"), pick("r"), pick("o")}}, 5)
	c19Solve(d, s, []InputArgument{{"x", x}, {"y", y}})
}

// two rows: the first defines u, the second uses it
//
//symgo:run C19 quick time=200 p.k=1
//symgo:run C19 thorough time=700 p.k=3
func HC19_rows() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	k := symParam("k", 2)
	m := func(n string, ws []int) map[int]*big.Int {
		m := map[int]*big.Int{}
		for _, w := range ws {
			m[w] = symBig(n+string(rune('0'+w)), vQ())
		}
		return m
	}
	one := map[int]*big.Int{3: vB(1)}
	r1 := []c19Row{
		{m("l", []int{1}), m("r", []int{2}), one},
		{one, m("r", []int{1}), m("o", []int{2})},
		{m("l", []int{0, 2}), one, m("o", []int{1})},
	}[symChoose("row", 3)]
	ws := [][]int{{3}, {1, 3}, {4}, {3, 4}, {0}}
	r2 := c19Row{m("a", ws[symChoose("a", 2+k)]), m("b", ws[symChoose("b", 2+k)]), m("c", ws[symChoose("c", 2+k)])}
	d, s := c19System([]c19Row{r1, r2}, 5)
	c19Solve(d, s, []InputArgument{{"x", x}, {"y", y}})
}

// programs that are much longer
//
//symgo:run C19 quick p.n=17 time=150 steps=20000000
//symgo:run C19 thorough p.n=65 time=500 steps=60000000
func HC19_long() {
	x, y := symBig("x", vQ()), symBig("y", vQ())
	n := vLongSize("n", symParam("n", 17))
	body, e, rest, _ := vLong(symChoose("form", vLongForms), n, x, y)
	c19Compare("func main(x,y){\n"+body+"return "+e+"\n}\n"+rest, false, x, y)
}
