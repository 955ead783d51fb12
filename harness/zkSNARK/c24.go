package zkSNARK

import "math/big"

// value at t of the polynomial through the column entries at 0..n-1
func c24At(mat [][]*big.Int, col int, t *big.Int) *big.Int {
	n := len(mat)
	s := vB(0)
	for j := 0; j < n; j++ {
		if mat[j][col].Sign() == 0 {
			continue
		}
		num, den := vB(1), vB(1)
		for k := 0; k < n; k++ {
			if k != j {
				num = vMul(num, vSub(t, vB(int64(k))))
				den = vMul(den, vMod(vB(int64(j-k))))
			}
		}
		s = vAdd(s, vMul(vMul(num, new(big.Int).ModInverse(den, vQ())), vMod(mat[j][col])))
	}
	return s
}

func c24Honest(n1, n2, n3, n4 int) (c vZk, sparse bool, s *Setup, p *Proof, w []*big.Int) {
	x, y, z := symBig("x", vQ()), symBig("y", vQ()), symBig("z", vQ())
	c = vCompile(vFamily(n1, n2, n3, n4))
	if len(c.gates) == 0 {
		symStop()
	}
	w, err := c.witness(x, y, z)
	if err != nil {
		symStop()
	}
	sparse = symChoose("sparse", 2) == 1
	s = c.setup(sparse)
	p = c.prove(sparse, s, w)
	return
}

// other public inputs are accepted only if they give the constraints the same
// values (for the secrets of the setup)
//
//symgo:run C24 quick time=150 p.n1=3 p.n2=2 p.n3=1 p.n4=2
//symgo:run C24 thorough time=700 p.n1=5 p.n2=3 p.n3=4 p.n4=3
func HC24_public() {
	c, _, s, p, w := c24Honest(symParam("n1", 3), symParam("n2", 2), symParam("n3", 2), symParam("n4", 2))
	pub := make([]*big.Int, c.pub)
	diff := vB(0)
	unreduced := symChoose("negative", c.pub+1)
	for i := range pub {
		pub[i] = symBig("p"+vNum(i), vQ())
		if unreduced == i+1 {
			pub[i] = new(big.Int).Sub(pub[i], vQ()) // negative
		}
		t := vAdd(vMul(s.Toxic.Kalpha, c24At(c.d.R, i, s.Toxic.x)), vMul(s.Toxic.Kbeta, c24At(c.d.L, i, s.Toxic.x)))
		t = vAdd(t, c24At(c.d.O, i, s.Toxic.x))
		diff = vAdd(diff, vMul(vSub(pub[i], w[i]), t))
	}
	symAssert(VerifyProof(&s.Pk, p, pub, false) == (diff.Sign() == 0), "a proof is accepted for other public inputs, or rejected for its own")
}

// vectors of wrong length are rejected without a crash
//
//symgo:run C24 both time=100 p.n1=3 p.n2=1 p.n3=1 p.n4=1
func HC24_length() {
	c, _, s, p, w := c24Honest(symParam("n1", 3), symParam("n2", 2), symParam("n3", 1), symParam("n4", 1))
	n := symChoose("n", c.pub+3)
	if n == c.pub {
		symStop()
	}
	pub := make([]*big.Int, n)
	for i := range pub {
		if i < len(w) && symChoose("honest", 2) == 1 {
			pub[i] = w[i]
		} else {
			pub[i] = symBig("p"+vNum(i), vQ())
		}
	}
	symAssert(!VerifyProof(&s.Pk, p, pub, false), "public inputs of wrong length are accepted")
}

// prover run on a vector that violates a constraint
//
//symgo:run C24 quick time=150 p.n1=2 p.n2=2 p.n3=1 p.n4=2
//symgo:run C24 thorough time=300 p.n1=2 p.n2=2 p.n3=2 p.n4=3
func HC24_witness() {
	c := vCompile(vFamily(symParam("n1", 2), symParam("n2", 2), symParam("n3", 3), symParam("n4", 2)))
	if len(c.gates) == 0 {
		symStop()
	}
	w := make([]*big.Int, c.d.WitnessLength)
	w[0] = vB(1)
	for i := 1; i < len(w); i++ {
		w[i] = symBig("w"+vNum(i), vQ())
	}
	bad := symChoose("bad", len(c.d.L))
	symAssume(!c.rowOK(bad, w))
	sparse := symChoose("sparse", 2) == 1
	s := c.setup(sparse)
	var p *Proof
	if symPanics(func() { p = c.prove(sparse, s, w) }) {
		symReach("refused")
		return
	}
	symAssert(!VerifyProof(&s.Pk, p, w[:c.pub], false), "a proof of a wrong witness is accepted")
}

// the same for circuits with many gates and public inputs, one of which is
// changed
//
//symgo:run C24 quick time=100 p.n=23 steps=100000000
//symgo:run C24 thorough time=400 p.n=34 steps=400000000
func HC24_long() {
	code, in := c23Long(symChoose("form", 4), c23LongSize(symParam("n", 9)))
	c := vCompile(code)
	w, err := c.witness(in...)
	symAssert(err == nil, "no witness")
	sparse := symChoose("sparse", 2) == 1
	s := c.setup(sparse)
	p := c.prove(sparse, s, w)
	pub := append([]*big.Int{}, w[:c.pub]...)
	j := symChoose("j", len(pub))
	pub[j] = symBig("p", vQ())
	t := vAdd(vMul(s.Toxic.Kalpha, c24At(c.d.R, j, s.Toxic.x)), vMul(s.Toxic.Kbeta, c24At(c.d.L, j, s.Toxic.x)))
	t = vMul(vSub(pub[j], w[j]), vAdd(t, c24At(c.d.O, j, s.Toxic.x)))
	symAssert(VerifyProof(&s.Pk, p, pub, false) == (t.Sign() == 0), "a proof is accepted for other public inputs, or rejected for its own")
}
