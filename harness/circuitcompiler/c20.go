package circuitcompiler

import (
	"math/big"

	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
)

func c20Eval(p []*big.Int, x int) *big.Int {
	s := vB(0)
	for i := len(p) - 1; i >= 0; i-- {
		s = vAdd(vMul(s, vB(int64(x))), p[i])
	}
	return s
}

func c20EvalSparse(p *utils.AvlTree, x int) *big.Int {
	s := vB(0)
	for _, n := range p.DecendingNodes() {
		s = vAdd(s, vMul(n.Value, new(big.Int).Exp(vB(int64(x)), vB(int64(n.Key)), nil)))
	}
	return s
}

// matrix with n rows and m columns; pattern: every entry arbitrary or fixed
func c20Matrix(name string, n, m, seed int, sym bool) ([][]*big.Int, []*utils.AvlTree) {
	var d [][]*big.Int
	var s []*utils.AvlTree
	for i := 0; i < n; i++ {
		row := utils.ArrayOfBigZeros(m)
		t := utils.NewAvlTree()
		for j := 0; j < m; j++ {
			if sym {
				row[j] = symBig(name+vNum(i)+vNum(j), vQ())
			} else if v := (i*7 + j*5 + seed) % 4; v != 0 {
				row[j] = vB(int64(v*v + seed))
			}
			if row[j].Sign() != 0 {
				t.Insert(uint(j), row[j])
			}
		}
		d, s = append(d, row), append(s, t)
	}
	return d, s
}

// columns become polynomials that take the entries of the column at 0..n-1
//
//symgo:run C20 quick time=250 p.n=3 p.m=3 p.z=6
//symgo:run C20 thorough time=750 p.n=4 p.m=4 p.z=8
func HC20_columns() {
	n, m := symChoose("rows", symParam("n", 3))+1, symChoose("cols", symParam("m", 3))+1
	which := symChoose("which", 4)
	if n*m > symParam("z", 6) {
		which = 4 // fixed entries
	}
	d := &ER1CS{WitnessLength: m, NumberOfGates: n}
	s := &ER1CSSparse{WitnessLength: m, NumberOfGates: n}
	d.L, s.L = c20Matrix("l", n, m, 1, which == 0)
	d.R, s.R = c20Matrix("r", n, m, 2, which == 1)
	d.E, s.E = c20Matrix("e", n, m, 3, which == 2)
	d.O, s.O = c20Matrix("o", n, m, 4, which == 3)
	dt, st := d.Transpose(), s.TransposeSparse()
	symAssert(dt.NumberOfGates == n && dt.WitnessLength == m, "size lost (dense)")
	symAssert(st.NumberOfGates == n && st.WitnessLength == m, "size lost (sparse)")
	var dp [4][][]*big.Int
	var sp [4][]*utils.AvlTree
	dp[0], dp[1], dp[2], dp[3] = dt.ER1CSToEAP()
	sp[0], sp[1], sp[2], sp[3] = st.ER1CSToEAPSparse()
	for k, mat := range [][][]*big.Int{d.L, d.R, d.E, d.O} {
		symAssert(len(dp[k]) == m && len(sp[k]) == m, "wrong number of polynomials")
		for j := 0; j < m; j++ {
			symAssert(len(dp[k][j]) <= n, "polynomial of too high degree (dense)")
			for _, e := range sp[k][j].DecendingNodes() {
				symAssert(e.Key < uint(n), "polynomial of too high degree (sparse)")
			}
			for i := 0; i < n; i++ {
				symAssert(c20Eval(dp[k][j], i).Cmp(mat[i][j]) == 0, "a column polynomial misses an entry (dense)")
				symAssert(c20EvalSparse(sp[k][j], i).Cmp(mat[i][j]) == 0, "a column polynomial misses an entry (sparse)")
			}
		}
	}
}

// the columns of compiled programs
//
//symgo:run C20 quick time=200 p.n1=2 p.n2=4 p.n3=3
//symgo:run C20 thorough time=700 p.n1=3 p.n2=9 p.n3=5
func HC20_programs() {
	c20Program("func main(x,y,z){\n" + vFamily(symParam("n1", 2), symParam("n2", 4), symParam("n3", 3)) + "}\n" + vRest)
}

func c20Program(code string) {
	c, ok := vCompile(code)
	if !ok || len(c.gates) == 0 {
		symStop()
	}
	d, s := c.p.GatesToR1CS(c.gates, false), c.p.GatesToSparseR1CS(c.gates, false)
	var dp [4][][]*big.Int
	var sp [4][]*utils.AvlTree
	dp[0], dp[1], dp[2], dp[3] = d.Transpose().ER1CSToEAP()
	sp[0], sp[1], sp[2], sp[3] = s.TransposeSparse().ER1CSToEAPSparse()
	for k, mat := range [][][]*big.Int{d.L, d.R, d.E, d.O} {
		symAssert(len(dp[k]) == d.WitnessLength && len(sp[k]) == d.WitnessLength, "wrong number of polynomials")
		for j := range dp[k] {
			for i := range mat {
				symAssert(c20Eval(dp[k][j], i).Cmp(vMod(mat[i][j])) == 0, "a column polynomial misses an entry (dense)")
				symAssert(c20EvalSparse(sp[k][j], i).Cmp(vMod(mat[i][j])) == 0, "a column polynomial misses an entry (sparse)")
			}
		}
	}
}

// the columns of longer programs
//
//symgo:run C20 quick p.n=9 time=150 steps=40000000
//symgo:run C20 thorough p.n=17 time=500 steps=90000000
func HC20_long() {
	n := vLongSize("n", symParam("n", 9))
	body, e, rest, _ := vLong(symChoose("form", vLongForms), n, vB(2), vB(3))
	c20Program("func main(x,y){\n" + body + "return " + e + "\n}\n" + rest)
}
