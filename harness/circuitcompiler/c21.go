package circuitcompiler

import (
	"math/big"
	"strings"
)

// c21Check: the public inputs follow the one in the order of their declaration
func c21Check(code string, params, public []string, vals map[string]*big.Int, fail bool) {
	c, ok := vCompile(code)
	symAssert(ok == !fail, "wrong decision whether the program is valid")
	if !ok || fail {
		return
	}
	symAssert(c.p.GlobalInputCount() == len(public)+1, "wrong number of public positions")
	d := c.p.GatesToR1CS(c.gates, false)
	s := c.p.GatesToSparseR1CS(c.gates, false)
	in := make([]*big.Int, len(params))
	symAssert(len(c.p.GetMainCircuit().Inputs) == len(params), "wrong number of inputs")
	for i, n := range params {
		in[i] = vals[n]
		symAssert(c.p.GetMainCircuit().Inputs[i] == n, "the inputs are in a different order")
	}
	w, err := CalculateWitness(d, vInputs(c.p, in...))
	v, err2 := CalculateSparseWitness(s, vInputs(c.p, in...))
	symAssert(err == nil && err2 == nil, "no witness")
	for k, ws := range [][]*big.Int{w, v} {
		what := []string{" (dense)", " (sparse)"}[k]
		symAssert(len(ws) >= len(params)+1, "witness too short"+what)
		symAssert(ws[0].Cmp(vB(1)) == 0, "the first wire is not one"+what)
		for i, n := range public {
			symAssert(ws[i+1].Cmp(vals[n]) == 0, "a public input is at a wrong position"+what)
		}
		// the private inputs follow, each once
		j := len(public) + 1
		for _, n := range params {
			priv := true
			for _, m := range public {
				priv = priv && m != n
			}
			if priv {
				symAssert(ws[j].Cmp(vals[n]) == 0, "a private input is at a wrong position"+what)
				j++
			}
		}
	}
}

// any sequence of distinct parameters is public; bodies use all, some or none
//
//symgo:run C21 quick time=200 p.n=3
//symgo:run C21 thorough time=700 p.n=4
func HC21_layout() {
	params := []string{"a", "b[0]", "b[1]", "c"}
	head := "a,b[2],c"
	n := symParam("n", 3)
	if symChoose("arity", 2) == 1 {
		params = []string{"u", "w", "v"}
		head = "u,w,v"
	}
	vals := map[string]*big.Int{}
	for _, p := range params {
		vals[p] = symBig(p, vQ())
	}
	var public []string
	left := append([]string{}, params...)
	k := symChoose("public", n+1)
	for i := 0; i < k && len(left) > 0; i++ {
		j := symChoose("p"+string(rune('0'+i)), len(left))
		public = append(public, left[j])
		left = append(left[:j:j], left[j+1:]...)
	}
	p0, p1 := params[0], params[1]
	body := vPick("body", []string{
		"return 1\n", "return " + p0 + "*" + p1 + "\n", "var t = " + p1 + "*" + p1 + "\nequal(t,t)\nreturn (t*" + p0 + ")*2\n",
		"var " + "q = 3*" + p0 + "\nreturn f(" + p1 + ",q)\n", "return " + params[len(params)-1] + "\n",
	})
	code := "func main(" + head + "){\n"
	decl := "public{" + strings.Join(public, ",") + "}\n"
	if len(public) == 0 {
		decl = ""
	}
	if symChoose("pos", 2) == 1 && strings.HasPrefix(body, "var t") {
		// declared after a use
		i := strings.Index(body, "equal")
		body = body[:i] + decl + body[i:]
		decl = ""
	}
	if symChoose("split", 2) == 1 && len(public) > 1 && decl != "" {
		decl = "public{" + public[0] + "}\npublic{\n" + strings.Join(public[1:], ",") + "\n}\n"
	}
	c21Check(code+decl+body+"}\nfunc f(x,y){\nreturn x*y\n}\n", params, public, vals, false)
}

// a parameter that is declared public twice, or a public name that is no
// parameter of main, is rejected
//
//symgo:run C21 both time=100
func HC21_invalid() {
	params := []string{"a", "b[0]", "b[1]", "c"}
	vals := map[string]*big.Int{}
	for _, p := range params {
		vals[p] = symBig(p, vQ())
	}
	names := []string{"a", "b[0]", "b[1]", "c", "z", "f", "b[2]"}
	valid := 4
	x, y := symChoose("x", len(names)), symChoose("y", len(names))
	fail := x == y || x >= valid || y >= valid
	code := "func main(a,b[2],c){\npublic{" + names[x] + "," + names[y] + "}\nvar z = a*c\nreturn z*b[0]\n}\nfunc f(x,y){\nreturn x*y\n}\n"
	c21Check(code, params, []string{names[x], names[y]}, vals, fail)
}

// many inputs, arrays with indices of two digits
//
//symgo:run C21 quick p.n=17 time=100 steps=20000000
//symgo:run C21 thorough p.n=65 time=300 steps=60000000
func HC21_long() {
	n := vLongSize("n", symParam("n", 17))
	var params, public []string
	head, body := "", ""
	arr := symChoose("array", 2) == 1
	if arr {
		head = "k,b[" + vNum(n) + "],z"
		params = append(params, "k")
	}
	for i := 0; i < n; i++ {
		if arr {
			params = append(params, "b["+vNum(i)+"]")
		} else {
			params = append(params, "v"+vNum(i))
		}
	}
	if arr {
		params = append(params, "z")
	} else {
		head = strings.Join(params, ",")
	}
	switch symChoose("public", 5) {
	case 1:
		public = append(public, params...)
	case 2: // backwards
		for i := range params {
			public = append(public, params[len(params)-1-i])
		}
	case 3: // every third
		for i := 0; i < len(params); i += 3 {
			public = append(public, params[i])
		}
	case 4: // some in another order
		for i := 0; i < len(params); i += 2 {
			public = append(public, params[(i+len(params)/2)%len(params)])
			if len(public) > 1 && public[len(public)-1] == public[0] {
				symStop()
			}
		}
	}
	vals := map[string]*big.Int{}
	for _, p := range params {
		vals[p] = symBig(p, vQ())
	}
	if symChoose("body", 2) == 1 {
		body = "var t = 1\n"
		for i := range params {
			body += "t = (t+" + params[len(params)-1-i] + ")*" + []string{"2", params[0], "3"}[i%3] + "\n"
			if i > 7 {
				break
			}
		}
	}
	decl := ""
	if len(public) > 0 {
		decl = "public{" + strings.Join(public, ",") + "}\n"
	}
	c21Check("func main("+head+"){\n"+decl+body+"return "+params[len(params)-1]+"*"+params[1]+"\n}\n", params, public, vals, false)
}
