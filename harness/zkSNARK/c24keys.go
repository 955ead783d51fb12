package zkSNARK

import (
	"bytes"

	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
)

// the secrets behind the published keys are independent of each other and drawn
// anew by every setup: with secrets that are all different, all the keys are
//
//symgo:run C24 quick time=100 p.n1=2 p.n2=2 p.n3=1 p.n4=2
//symgo:run C24 thorough time=200 p.n1=4 p.n2=3 p.n3=2 p.n4=3
func HC24_secrets() {
	c := vCompile(vFamily(symParam("n1", 2), symParam("n2", 2), symParam("n3", 1), symParam("n4", 2)))
	if len(c.gates) == 0 {
		symStop()
	}
	first := symChoose("sparse", 2) == 1
	second := symChoose("sparse2", 2) == 1
	g, h := new(bn256.G1).ScalarBaseMult(vB(1)), new(bn256.G2).ScalarBaseMult(vB(1))
	var keys []*bn256.GT
	for _, s := range []*Setup{c.setup(first), c.setup(second)} {
		keys = append(keys, bn256.Pair(s.Pk.G1.Alpha, h), bn256.Pair(g, s.Pk.G2.Beta), bn256.Pair(g, s.Pk.G2.Gamma), bn256.Pair(g, s.Pk.G2.Delta))
		if len(s.Pk.G1.PowersX) > 1 {
			keys = append(keys, bn256.Pair(s.Pk.G1.PowersX[1], h))
		}
		symAssert(bytes.Equal(bn256.Pair(s.Pk.G1.Beta, h).Marshal(), bn256.Pair(g, s.Pk.G2.Beta).Marshal()), "the keys of beta differ")
		symAssert(bytes.Equal(bn256.Pair(s.Pk.G1.Delta, h).Marshal(), bn256.Pair(g, s.Pk.G2.Delta).Marshal()), "the keys of delta differ")
	}
	for i := range vDraws {
		for j := range vDraws[:i] {
			symAssume(vDraws[i].Cmp(vDraws[j]) != 0)
		}
	}
	symReach("secrets")
	enc := make([][]byte, len(keys))
	for i := range keys {
		enc[i] = keys[i].Marshal()
		for j := range enc[:i] {
			symAssert(!bytes.Equal(enc[i], enc[j]), "two keys have the same secret")
		}
	}
}
