package zkSNARK

import (
	"math/big"
	"strings"
)

// honest proofs are accepted
//
//symgo:run C23 quick time=200 p.n1=3 p.n2=2 p.n3=2 p.n4=2
//symgo:run C23 thorough time=750 p.n1=5 p.n2=5 p.n3=6 p.n4=5
func HC23_complete() {
	x, y, z := symBig("x", vQ()), symBig("y", vQ()), symBig("z", vQ())
	c := vCompile(vFamily(symParam("n1", 3), symParam("n2", 2), symParam("n3", 3), symParam("n4", 3)))
	if len(c.gates) == 0 {
		symStop()
	}
	w, err := c.witness(x, y, z)
	if err != nil {
		symStop()
	}
	sparse := symChoose("sparse", 2) == 1
	s := c.setup(sparse)
	p := c.prove(sparse, s, w)
	symAssert(VerifyProof(&s.Pk, p, w[:c.pub], false), "an honest proof is rejected")
}

// larger circuits, with all their inputs private or some public: also those
// whose quotient polynomial has coefficients that are zero
//
//symgo:run C23 quick time=90 p.n=3
//symgo:run C23 thorough time=300 p.n=5 p.nonzero=0 p.fixed=0
func HC23_larger() { c23Larger(false) }

//symgo:run C23 quick time=40 p.n=1
//symgo:run C23 thorough time=400 p.n=5 p.nonzero=0 p.fixed=0
func HC23_largersparse() { c23Larger(true) }

func c23Larger(sparse bool) {
	in := make([]string, 0)
	var v []*big.Int
	for _, n := range []string{"a", "b", "c", "d", "e", "f"} {
		in = append(in, n)
		if len(v)%2 == 1 && symParam("fixed", 1) == 1 {
			v = append(v, vB(int64(len(v)+1)))
		} else {
			v = append(v, symBig(n, vQ()))
		}
	}
	if symParam("nonzero", 1) == 1 {
		for _, i := range v {
			symAssume(i.Sign() != 0)
		}
	}
	n := symParam("n", 1)
	code := vPick("code", []string{
		"return (a*b)*((c*d)*e)\n",
		"public{b}\nvar s = a*b\nvar t = c*d\nequal(s*1,e)\nreturn t*(f+2)\n",
		"var s = a/b\nreturn (s*c)/(d-(e*f))\n",
		"public{f}\nvar s = (a+b)*(a-b)\nvar t = (c+d)*(c-d)\nvar u = (e+f)*(e-f)\nreturn (s*t)*(t*u)\n",
		"var i = 0\nfor (i<5;i=i+1){\na = a*(b+i)\n}\nreturn a*c\n",
	}[:n])
	c := vCompile("func main(" + strings.Join(in, ",") + "){\n" + code + "}\n")
	w, err := c.witness(v...)
	if err != nil {
		symStop()
	}
	s := c.setup(sparse)
	p := c.prove(sparse, s, w)
	symAssert(VerifyProof(&s.Pk, p, w[:c.pub], false), "an honest proof is rejected")
}

// an input may be any integer that stands for its residue: negative numbers and
// numbers above the field order too
//
//symgo:run C23 quick time=60 p.n=2 p.r=2
//symgo:run C23 thorough time=300 p.n=3 p.r=3
func HC23_unreduced() {
	n := symParam("n", 1)
	v := make([]*big.Int, 2)
	for i := range v {
		v[i] = symBig("v", vQ())
		if symChoose("shift", 2) == 1 {
			v[i] = new(big.Int).Sub(v[i], vQ())
		} else {
			v[i] = new(big.Int).Add(v[i], vQ())
		}
	}
	c := vCompile("func main(x,y){\n" + vPick("pub", []string{"", "public{x}\n", "public{y,x}\n"}[:n]) +
		"return " + vPick("r", []string{"(x*y)*x", "x*(y-3)", "(x/y)*y"}[:symParam("r", 1)]) + "\n}\n")
	w, err := c.witness(v...)
	if err != nil {
		symStop()
	}
	for _, sparse := range []bool{false, true} {
		s := c.setup(sparse)
		p := c.prove(sparse, s, w)
		symAssert(VerifyProof(&s.Pk, p, w[:c.pub], false), "an honest proof for a negative or unreduced input is rejected")
	}
}
