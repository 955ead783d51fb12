package circuitcompiler

import "os"

func vEqC(a, b *Constraint) bool {
	if a.Output != b.Output || len(a.Inputs) != len(b.Inputs) {
		return false
	}
	for i := range a.Inputs {
		if !vEqC(a.Inputs[i], b.Inputs[i]) {
			return false
		}
	}
	return true
}

// Comments, blank lines and blanks at the end or the start of a line do not
// change what a program consists of, wherever there is a line break
//
//symgo:run C14 quick time=60 steps=400000 p.n=1 with=c14
//symgo:run C14 thorough time=300 steps=400000 p.n=2 with=c14
func HC14_layout() {
	t := []string{
		"public{\nx,\ny\n}\nfunc main(x,y){\nvar a = (x+y)*y\na = a*a\nreturn a\n}\n",
		"func main(x,y){\nvar b[] = {x,(y+1)}\nb[0] = x\nequal(\nx,\ny\n)\nreturn b[1]\n}\n",
		"func main(\nx,\ny\n){\nif x==1 {\nreturn y\n}else if x==2 {\nf(x)\n}else{\nx = f(y)\n}\nreturn x\n}\nfunc f(a){\nreturn a\n}\n",
		"func main(x){\nvar i = 0\nfor(i<3;i=i+1){\nvar g = func(u){\nreturn u*u\n}\nx = g(x)\n}\nreturn x\n}",
	}
	s := t[symChoose("program", len(t))]
	want, ok := vStatements(s)
	symAssert(ok, "a valid program is rejected")
	for n := 0; n < symParam("n", 1); n++ {
		var at []int
		for k := range s {
			if s[k] == '\n' {
				at = append(at, k)
			}
		}
		k := at[symChoose("at", len(at))]
		ins := []string{" # note", " ", "\r", "\t# a = (1\r", "#", "\n# note", "\n\n", "\n \n\t", "\n# }\n# {", "\n\n#\n\n"}
		s = s[:k] + ins[symChoose("ins", len(ins))] + s[k:]
	}
	got, ok := vStatements(s)
	symAssert(ok, "a comment or blank line makes a valid program invalid")
	symAssert(len(got) == len(want), "a comment or blank line changes the number of statements")
	for i := range want {
		symAssert(vEqC(got[i], want[i]), "a comment or blank line changes a statement")
	}
}

// What is no plain assignment is no declaration or loop step
//
//symgo:run C14 both time=60 steps=400000 with=c14
func HC14_assignments() {
	op := vPick("op", []string{"=", "+=", "-=", "*=", "/=", "==", "<", "+", ""})
	st := vPick("statement", []string{"var a ? x\n", "a ? x\n", "a[1] ? x\n", "var a[] ? {x,1}\n", "for(i<3;i?i+1){\nx = x\n}\n", "var a ? func(u){\nreturn u\n}\n"})
	s := ""
	for _, r := range st {
		if r == '?' {
			s += op
		} else {
			s += string(r)
		}
	}
	_, ok := vStatements("func main(x){\n" + s + "return x\n}\n")
	symAssert(ok == (op == "="), "only = assigns")
}

var vFiles map[string]string

func vReadFile(name string) ([]byte, error) {
	s, ok := vFiles[name]
	if !ok {
		return nil, vLexErr{}
	}
	return []byte(s), nil
}

// An import is read as if the text of the file stood there
//
//symgo:run C14 both time=60 steps=600000 with=c14 group=import
//symgo:model io/ioutil.ReadFile vReadFile
//symgo:model os.ReadFile vReadFile
func HC14_import() {
	vFiles = map[string]string{}
	dir := "/lib/"
	if symNative() {
		d, err := os.MkdirTemp("", "symgo")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(d)
		dir = d + "/"
	}
	put := func(name, text string) string {
		vFiles[dir+name] = text
		if symNative() {
			os.WriteFile(dir+name, []byte(text), 0600)
		}
		return "import \"" + dir + name + "\""
	}
	level := [][]string{
		{"func main(x,y){\nreturn f(x)\n}", "func f(a){\nreturn (a*a)\n}", "func g(a,b[2]){\nif a==1 {\nreturn b[0]\n}\nreturn b[1]\n}"},
		{"var a = (1+x)", "var b[] = {x,y}", "b[1] = a", "equal(a,y)", "for(i<3;i=i+1){\na = a*a\n}", "return b[1]"},
	}
	k := symChoose("level", len(level))
	parts := level[k]
	i := symInt("from", 0, len(parts)-1)
	j := symInt("to", 1, len(parts))
	symAssume(i < j)
	i, j = symConcInt(i), symConcInt(j)
	trail := []string{"", "\n", "\n\n# end\n"}
	join := func(p []string) (s string) {
		for n, x := range p {
			if n > 0 {
				s += "\n"
			}
			s += x
		}
		return
	}
	inner := join(parts[i:j])
	m := symChoose("nested", 3)
	switch m {
	case 1:
		inner = put("first", join(parts[i:j-1])) + "\n" + parts[j-1]
	case 2:
		inner = put("last", inner)
	}
	imp := put("file", vTrail(inner, trail))
	all := append([]string{}, parts[:i]...)
	all = append(all, imp)
	all = append(all, parts[j:]...)
	with, without := join(all), join(parts)
	if k == 1 {
		with, without = "func main(x,y){\n"+with+"\n}\n", "func main(x,y){\n"+without+"\n}\n"
	}
	want, ok := vStatements(without)
	symAssert(ok, "a valid program is rejected")
	got, ok := vStatements(with)
	symAssert(ok, "a program with an import is rejected")
	symAssert(len(got) == len(want), "an import changes the number of statements")
	for n := range want {
		symAssert(vEqC(got[n], want[n]), "an import changes a statement")
	}
}

func vTrail(s string, t []string) string { return s + t[symChoose("trail", len(t))] }
