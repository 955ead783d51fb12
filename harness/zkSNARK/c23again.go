package zkSNARK

import (
	"math/big"

	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
)

// what a key, a witness or a proof is made of, to see whether it has changed

type c23Snap struct {
	g1 []*bn256.G1
	g2 []*bn256.G2
	gt []*bn256.GT
	n  []*big.Int
	v  []*big.Int
	b  []string
}

func (s *c23Snap) key(k *Pk) *c23Snap {
	s.g1 = append(s.g1, k.G1.Alpha, k.G1.Beta, k.G1.Delta)
	for _, l := range [][]*bn256.G1{k.G1.RLEO_Delta, k.G1.RLEO_Gamma, k.G1.PowersX, k.G1.PowersX_Domain_Delta, k.G1.Lx_plus_Ex, k.G1.Ex} {
		s.g1 = append(s.g1, l...)
	}
	s.g2 = append(s.g2, k.G2.Beta, k.G2.Gamma, k.G2.Delta)
	s.g2 = append(s.g2, k.G2.PowersX...)
	s.g2 = append(s.g2, k.G2.Rx...)
	s.gt = append(s.gt, k.eGH, k.eGHalphaBeta)
	s.n = append(s.n, k.Domain...)
	return s
}

func (s *c23Snap) proof(p *Proof) *c23Snap {
	s.g1 = append(s.g1, p.PiA, p.PiC, p.PiF)
	s.g2 = append(s.g2, p.PiB)
	return s
}

func (s *c23Snap) numbers(n []*big.Int) *c23Snap {
	s.n = append(s.n, n...)
	return s
}

func (s *c23Snap) values() (v []*big.Int, b []string) {
	for _, n := range s.n {
		v = append(v, new(big.Int).Set(n))
	}
	if symNative() {
		for _, e := range s.g1 {
			b = append(b, string(e.Marshal()))
		}
		for _, e := range s.g2 {
			b = append(b, string(e.Marshal()))
		}
		for _, e := range s.gt {
			b = append(b, string(e.Marshal()))
		}
		return
	}
	for _, e := range s.g1 {
		v = append(v, vG1[e])
	}
	for _, e := range s.g2 {
		v = append(v, vG2[e])
	}
	for _, e := range s.gt {
		v = append(v, vGT[e])
	}
	return
}

func (s *c23Snap) take() *c23Snap {
	s.v, s.b = s.values()
	return s
}

func (s *c23Snap) same() bool {
	v, b := s.values()
	for i := range v {
		if v[i].Cmp(s.v[i]) != 0 {
			return false
		}
	}
	for i := range b {
		if b[i] != s.b[i] {
			return false
		}
	}
	return true
}

// neither proving nor verifying changes the key, the witness, the public
// signals or the proof: a key serves any number of proofs, a proof is accepted
// any number of times
//
//symgo:run C23 quick time=100 p.n1=2 p.n2=2 p.n3=1 p.n4=2 p.n=2
//symgo:run C23 thorough time=400 p.n1=4 p.n2=3 p.n3=3 p.n4=3 p.n=4
func HC23_again() {
	x, y, z := symBig("x", vQ()), symBig("y", vQ()), symBig("z", vQ())
	code := ""
	if symChoose("family", 2) == 0 {
		code = vFamily(symParam("n1", 2), symParam("n2", 2), symParam("n3", 1), symParam("n4", 2))
	} else {
		code = "func main(x,y,z){\n" + vPick("code", []string{
			"return (x*y)*(z*2)\n",
			"public{x}\nvar s = x*y\nvar t = s*x\nreturn t*s\n",
			"public{z,x}\nvar s = x/y\nvar t = s*z\nreturn t*(s+1)\n",
			"var s = x*x\nvar t = s*s\nvar u = t*t\nreturn u*y\n",
		}[:symParam("n", 2)]) + "}\n"
	}
	c := vCompile(code)
	if len(c.gates) == 0 {
		symStop()
	}
	w, err := c.witness(x, y, z)
	if err != nil {
		symStop()
	}
	sparse := symChoose("sparse", 2) == 1
	s := c.setup(sparse)
	key := new(c23Snap).key(&s.Pk).take()
	wit := new(c23Snap).numbers(w).take()
	p := c.prove(sparse, s, w)
	symAssert(key.same(), "making a proof changes the key")
	symAssert(wit.same(), "making a proof changes the witness")
	prf := new(c23Snap).proof(p).take()
	pub := w[:c.pub]
	symAssert(VerifyProof(&s.Pk, p, pub, false), "an honest proof is rejected")
	symAssert(key.same(), "verifying a proof changes the key")
	symAssert(wit.same(), "verifying a proof changes the public signals")
	symAssert(prf.same(), "verifying a proof changes the proof")
}
