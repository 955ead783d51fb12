package zkSNARK

import (
	"math/big"

	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
)

// the combined polynomial is divisible by the domain polynomial exactly if the
// witness satisfies every constraint
//
//symgo:run C20 quick time=150 group=comb p.n3=1 p.n4=2 p.n2=2
//symgo:run C20 thorough time=400 group=comb p.n3=2 p.n4=3 p.n2=2
func HC20_divisible() {
	c := vCompile(vFamily(1, symParam("n2", 2), symParam("n3", 1), symParam("n4", 2)))
	n := len(c.d.L)
	if n == 0 {
		symStop()
	}
	w := make([]*big.Int, c.d.WitnessLength)
	w[0] = vB(1)
	for i := 1; i < len(w); i++ {
		w[i] = symBig("w"+vNum(i), vQ())
	}
	all := true
	for i := 0; i < n; i++ {
		if !c.rowOK(i, w) {
			all = false
			break
		}
	}
	dom := utils.Field.PolynomialField.DomainPolynomial(n)
	if symChoose("sparse", 2) == 0 {
		px := CombinePolynomials2(w, c.d.Transpose())
		_, r := utils.Field.PolynomialField.Div(px, dom)
		symAssert(utils.IsZeroArray(r) == all, "divisibility does not match the constraints (dense)")
	} else {
		px := CombineSparsePolynomials(w, c.s.TransposeSparse())
		_, r := utils.Field.ArithmeticField.DivideSparse(px, utils.NewSparseArrayFromArray(dom))
		symAssert((r.Size() == 0) == all, "divisibility does not match the constraints (sparse)")
	}
}

// with scalar multiplications: the combined polynomial has at i the value of
// row i
//
//symgo:run C20 quick time=100 group=comb p.k=1
//symgo:run C20 thorough time=300 group=comb p.k=3
func HC20_values() {
	x, y, z := symBig("x", vQ()), symBig("y", vQ()), symBig("z", vQ())
	code := "func main(x,y,z){\nvar p = scalarBaseMultiply(" + vPick("e", []string{"x-y", "x", "3*z"}[:symParam("k", 1)]) + ")\nvar s = scalarBaseMultiply(y)\nvar t = p*" +
		vPick("f", []string{"s", "z", "p"}[:symParam("k", 1)]) + "\nreturn t\n}\n"
	c := vCompile(code)
	w := make([]*big.Int, c.d.WitnessLength)
	in := map[int]*big.Int{1: x, 2: y, 3: z}
	w[0] = vB(1)
	for i := 1; i < len(w); i++ {
		w[i] = in[i]
		if w[i] == nil {
			w[i] = symBig("w"+vNum(i), vQ())
		}
	}
	sparse := symChoose("sparse", 2) == 1
	var px []*big.Int
	var sx *utils.AvlTree
	if sparse {
		sx = CombineSparsePolynomials(w, c.s.TransposeSparse())
	} else {
		px = CombinePolynomials2(w, c.d.Transpose())
	}
	for i := range c.d.L {
		want := vSub(vMul(vDot(c.d.L[i], w), vDot(c.d.R[i], w)), vDot(c.d.O[i], w))
		want = vAdd(want, g1ScalarBaseMultiply(vDot(c.d.E[i], w)).X())
		got := vB(0)
		if sparse {
			for _, n := range sx.DecendingNodes() {
				got = vAdd(got, vMul(n.Value, new(big.Int).Exp(vB(int64(i)), vB(int64(n.Key)), nil)))
			}
		} else {
			for j := len(px) - 1; j >= 0; j-- {
				got = vAdd(vMul(got, vB(int64(i))), px[j])
			}
		}
		symAssert(got.Cmp(want) == 0, "the combined polynomial misses the value of a row")
	}
}
