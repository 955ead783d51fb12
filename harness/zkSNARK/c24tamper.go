package zkSNARK

import (
	"math/big"

	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
)

func c24Zero1(e *bn256.G1) bool {
	if symNative() {
		_, _, z, _ := e.CurvePoints()
		return z.Sign() == 0
	}
	return vG1[e].Sign() == 0
}

func c24Zero2(e *bn256.G2) bool {
	if symNative() {
		_, _, z, _ := e.CurvePoints()
		return z.IsZero()
	}
	return vG2[e].Sign() == 0
}

// a proof element replaced by a multiple of itself is not accepted (unless the
// element, or the one it is paired with, is the neutral element)
//
//symgo:run C24 quick time=150 p.n1=2 p.n2=2 p.n3=1 p.n4=2
//symgo:run C24 thorough time=700 p.n1=5 p.n2=3 p.n3=3 p.n4=3
func HC24_tamper() {
	c, _, s, p, w := c24Honest(symParam("n1", 3), symParam("n2", 2), symParam("n3", 2), symParam("n4", 2))
	k := symBig("k", vQ())
	symAssume(k.Cmp(vB(1)) != 0)
	q := &Proof{PiA: p.PiA, PiB: p.PiB, PiC: p.PiC, PiF: p.PiF}
	same := func() bool { return false }
	switch symChoose("element", 4) {
	case 0:
		q.PiA = new(bn256.G1).ScalarMult(p.PiA, k)
		same = func() bool { return c24Zero1(p.PiA) || c24Zero2(new(bn256.G2).Add(p.PiB, s.Pk.G2.Beta)) }
	case 1:
		q.PiB = new(bn256.G2).ScalarMult(p.PiB, k)
		same = func() bool { return c24Zero2(p.PiB) || c24Zero1(p.PiA) }
	case 2:
		q.PiC = new(bn256.G1).ScalarMult(p.PiC, k)
		same = func() bool { return c24Zero1(p.PiC) }
	case 3: // another element in the place of the neutral one
		q.PiF = new(bn256.G1).ScalarBaseMult(k)
		same = func() bool {
			if symNative() {
				return k.Sign() == 0
			}
			return q.PiF.X().Cmp(vMul(k, vG2[p.PiB])) == 0
		}
	}
	pub := make([]*big.Int, c.pub)
	copy(pub, w)
	if VerifyProof(&s.Pk, q, pub, false) {
		symAssert(same(), "a changed proof is accepted")
	}
}
