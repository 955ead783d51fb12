package zkSNARK

// circuits with many gates, inputs and public inputs
//
//symgo:run C23 quick time=100 p.n=23 steps=100000000
//symgo:run C23 thorough time=400 p.n=34 steps=400000000
func HC23_long() {
	code, in := c23Long(symChoose("form", 4), c23LongSize(symParam("n", 9)))
	c := vCompile(code)
	w, err := c.witness(in...)
	symAssert(err == nil, "no witness")
	sparse := symChoose("sparse", 2) == 1
	s := c.setup(sparse)
	p := c.prove(sparse, s, w)
	symAssert(VerifyProof(&s.Pk, p, w[:c.pub], false), "an honest proof is rejected")
}
