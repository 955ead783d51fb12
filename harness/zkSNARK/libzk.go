package zkSNARK

import (
	"math/big"
	"strconv"

	"github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
)

// Generic group model: a group element is its discrete logarithm with respect
// to the generator, modulo the group order. The group operations themselves are
// the subject of C10 and C12, bilinearity is assumed (C25).

func vQ() *big.Int { return utils.Field.ArithmeticField.Q }

func vB(n int64) *big.Int         { return big.NewInt(n) }
func vMod(x *big.Int) *big.Int    { return new(big.Int).Mod(x, vQ()) }
func vMul(x, y *big.Int) *big.Int { return vMod(new(big.Int).Mul(x, y)) }
func vAdd(x, y *big.Int) *big.Int { return vMod(new(big.Int).Add(x, y)) }
func vSub(x, y *big.Int) *big.Int { return vMod(new(big.Int).Sub(x, y)) }

func vPick(name string, l []string) string { return l[symChoose(name, len(l))] }
func vNum(n int) string                    { return strconv.Itoa(n) }

var vG1 = map[*bn256.G1]*big.Int{}
var vG2 = map[*bn256.G2]*big.Int{}
var vGT = map[*bn256.GT]*big.Int{}

//symgo:model (*@/pairing.G1).ScalarBaseMult m1Base
func m1Base(e *bn256.G1, k *big.Int) *bn256.G1 { vG1[e] = vMod(k); return e }

//symgo:model (*@/pairing.G1).ScalarMult m1Mult
func m1Mult(e, a *bn256.G1, k *big.Int) *bn256.G1 { vG1[e] = vMul(vG1[a], k); return e }

//symgo:model (*@/pairing.G1).Add m1Add
func m1Add(e, a, b *bn256.G1) *bn256.G1 { vG1[e] = vAdd(vG1[a], vG1[b]); return e }

//symgo:model (*@/pairing.G1).Neg m1Neg
func m1Neg(e, a *bn256.G1) *bn256.G1 { vG1[e] = vSub(vB(0), vG1[a]); return e }

//symgo:model (*@/pairing.G2).ScalarBaseMult m2Base
func m2Base(e *bn256.G2, k *big.Int) *bn256.G2 { vG2[e] = vMod(k); return e }

//symgo:model (*@/pairing.G2).ScalarMult m2Mult
func m2Mult(e, a *bn256.G2, k *big.Int) *bn256.G2 { vG2[e] = vMul(vG2[a], k); return e }

//symgo:model (*@/pairing.G2).Add m2Add
func m2Add(e, a, b *bn256.G2) *bn256.G2 { vG2[e] = vAdd(vG2[a], vG2[b]); return e }

//symgo:model (*@/pairing.G1).Marshal m1Marshal
func m1Marshal(e *bn256.G1) []byte { return vCode(1, vG1[e]) }

//symgo:model (*@/pairing.G2).Marshal m2Marshal
func m2Marshal(e *bn256.G2) []byte { return vCode(2, vG2[e]) }

//symgo:model @/pairing.PairingCheck mPairingCheck
func mPairingCheck(a []*bn256.G1, b []*bn256.G2) bool {
	s := vB(0)
	for i := range a {
		s = vAdd(s, vMul(vG1[a[i]], vG2[b[i]]))
	}
	return s.Sign() == 0
}

//symgo:model @/pairing.OneGT mOneGT
func mOneGT() *bn256.GT {
	e := new(bn256.GT)
	vGT[e] = vB(0)
	return e
}

//symgo:model (*@/pairing.GT).ScalarMult mTMult
func mTMult(e, a *bn256.GT, k *big.Int) *bn256.GT { vGT[e] = vMul(vGT[a], k); return e }

//symgo:model (*@/pairing.GT).Add mTAdd
func mTAdd(e, a, b *bn256.GT) *bn256.GT { vGT[e] = vAdd(vGT[a], vGT[b]); return e }

//symgo:model (*@/pairing.GT).Neg mTNeg
func mTNeg(e, a *bn256.GT) *bn256.GT { vGT[e] = vSub(vB(0), vGT[a]); return e }

//symgo:model @/pairing.Pair mPair
func mPair(a *bn256.G1, b *bn256.G2) *bn256.GT {
	e := new(bn256.GT)
	vGT[e] = vMul(vG1[a], vG2[b])
	return e
}

// encodings are equal exactly for equal elements
var vSeen [3][]*big.Int

func vCode(group int, k *big.Int) []byte {
	for i, s := range vSeen[group] {
		if s.Cmp(k) == 0 {
			return []byte{byte(i)}
		}
	}
	vSeen[group] = append(vSeen[group], k)
	return []byte{byte(len(vSeen[group]) - 1)}
}

//symgo:model (*@/pairing.GT).Marshal mTMarshal
func mTMarshal(e *bn256.GT) []byte { return vCode(0, vGT[e]) }

type vSbmEntry struct{ k, x *big.Int }

var vSbmTab []vSbmEntry

// the abscissa is an uninterpreted function of the discrete logarithm
//
//symgo:model (*@/pairing.G1).X m1X
func m1X(e *bn256.G1) *big.Int {
	k := vG1[e]
	if k.Sign() == 0 {
		return vB(0)
	}
	for _, t := range vSbmTab {
		if t.k.Cmp(k) == 0 {
			return t.x
		}
	}
	v := symBig("sbm", vQ())
	vSbmTab = append(vSbmTab, vSbmEntry{k, v})
	return v
}

// the secrets of the setup are arbitrary non-zero field elements
//
//symgo:model (@/utils.Fq).Rand mRand
func mRand(fq utils.Fq) (*big.Int, error) {
	s := symBig("secret", fq.Q)
	symAssume(s.Sign() != 0)
	vDraws = append(vDraws, new(big.Int).Set(s))
	return s, nil
}

var vDraws []*big.Int

type vZk struct {
	p     *circuitcompiler.Program
	gates []*circuitcompiler.Gate
	d     *circuitcompiler.ER1CS
	s     *circuitcompiler.ER1CSSparse
	pub   int
}

func vCompile(code string) (r vZk) {
	r.p = circuitcompiler.Parse(code, true)
	r.gates = r.p.Execute()
	r.d = r.p.GatesToR1CS(r.gates, false)
	r.s = r.p.GatesToSparseR1CS(r.gates, false)
	r.pub = r.p.GlobalInputCount()
	return
}

func (z vZk) witness(in ...*big.Int) ([]*big.Int, error) {
	return circuitcompiler.CalculateWitness(z.d, circuitcompiler.CombineInputs(z.p.GetMainCircuit().Inputs, in))
}

func vDot(row, w []*big.Int) *big.Int {
	s := vB(0)
	for i := range row {
		if row[i].Sign() != 0 {
			s = new(big.Int).Add(s, new(big.Int).Mul(row[i], w[i]))
		}
	}
	return vMod(s)
}

func (z vZk) rowOK(i int, w []*big.Int) bool {
	return vMul(vDot(z.d.L[i], w), vDot(z.d.R[i], w)).Cmp(vDot(z.d.O[i], w)) == 0
}

func (z vZk) setup(sparse bool) *Setup {
	var s *Setup
	var err error
	if sparse {
		s, err = GenerateTrustedSetupSparse(z.pub, z.s.TransposeSparse())
	} else {
		s, err = GenerateTrustedSetup(z.pub, z.d.Transpose())
	}
	symAssert(err == nil && s != nil, "the setup fails")
	return s
}

func (z vZk) prove(sparse bool, s *Setup, w []*big.Int) *Proof {
	var p *Proof
	var err error
	if sparse {
		p, err = GenerateProof_Sparse(z.pub, &s.Pk, w, CombineSparsePolynomials(w, z.s.TransposeSparse()))
	} else {
		p, err = GenerateProofs(z.pub, &s.Pk, w, CombinePolynomials2(w, z.d.Transpose()))
	}
	symAssert(err == nil && p != nil, "the prover fails")
	return p
}

// programs over x, y, z with any of them public
func vFamily(n1, n2, n3, n4 int) string {
	pub := []string{"", "public{x}\n", "public{z,x}\n", "public{y,x}\n", "public{y}\n"}
	as := []string{"x*y", "x", "(x+3)*(x-z)", "x/y", "(2*x)-y"}
	st := []string{"", "var b = a*a\n", "equal(a,a*1)\n", "var b = f(a,z)\nvar c = addGateConstraint(b,b)\n", "var b = (a*z)*(a*x)\n", "var b = z*7\nvar c = b*b\n"}
	rt := []string{"a*z", "7*a", "(a-x)*(y+a)", "f(a,f(a,x))", "(a*3)/(z*4)"}
	return "func main(x,y,z){\n" + vPick("pub", pub[:n1]) + "var a = " + vPick("a", as[:n2]) + "\n" + vPick("s", st[:n3]) + "return " + vPick("r", rt[:n4]) + "\n}\nfunc f(u,v){\nreturn (u*v)-2\n}\n"
}
