package circuitcompiler

// vExprTree parses an expression text; ok is false if it is rejected
func vExprTree(src string) (c *Constraint, ok bool) {
	c = &Constraint{}
	ok = !symPanics(func() {
		l := New(src, ProbablyWhitespaceState)
		l.ErrorHandler = func(e string) { l.Err = errLex }
		l.Start()
		p := &Parser{lexer: l}
		t := p.stackAllTokens()
		if l.Err != nil {
			panic("lexer")
		}
		l.ErrorHandler = nil // parse errors panic
		p.parseExpression(t[:len(t)-1], c)
	})
	return
}

type vLexErr struct{}

func (vLexErr) Error() string { return "lexer error" }

var errLex = vLexErr{}

// reference grammar
//
//	chain   := operand { operator operand }
//	operand := number | name | name '(' [chain {',' chain} [',']] ')'
//	         | name '[' chain ']' { '[' chain ']' } | '(' chain ')'
type vNode struct {
	kind byte // 'n' number or name, 'c' call, 'a' array access, '(' brackets
	text string
	args []vChain
}

type vChain struct {
	ops  []string
	opnd []vNode
}

type vScan struct {
	s  string
	p  int
	ok bool
}

func (s *vScan) peek() byte {
	for s.p < len(s.s) && vBl(s.s[s.p]) {
		s.p++
	}
	if s.p < len(s.s) {
		return s.s[s.p]
	}
	return 0
}

func vBl(b byte) bool { return b == ' ' }

func vLet(b byte) bool { return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' }
func vDig(b byte) bool { return b >= '0' && b <= '9' }

func (s *vScan) operator() string {
	b := s.peek()
	two := ""
	if s.p+1 < len(s.s) {
		two = s.s[s.p : s.p+2]
	}
	switch two {
	case "-=", "+=", "*=", "/=", "||", "&&", ">>", "<<", "==", "!=", ">=", "<=":
		s.p += 2
		return two
	}
	switch b {
	case '=', '+', '-', '*', '/', '<', '>':
		s.p++
		return s.s[s.p-1 : s.p]
	}
	return ""
}

func (s *vScan) chain() (c vChain) {
	for {
		c.opnd = append(c.opnd, s.operand())
		if !s.ok {
			return
		}
		op := s.operator()
		if op == "" {
			return
		}
		c.ops = append(c.ops, op)
	}
}

func (s *vScan) expect(b byte) {
	if s.peek() != b {
		s.ok = false
		return
	}
	s.p++
}

func (s *vScan) operand() (n vNode) {
	b := s.peek()
	i := s.p
	switch {
	case vDig(b):
		for s.p < len(s.s) && vDig(s.s[s.p]) {
			s.p++
		}
		return vNode{kind: 'n', text: s.s[i:s.p]}
	case b == '(':
		s.p++
		n = vNode{kind: '(', args: []vChain{s.chain()}}
		if s.ok {
			s.expect(')')
		}
		return
	case vLet(b) || b == '_':
		for s.p < len(s.s) && (vLet(s.s[s.p]) || vDig(s.s[s.p]) || s.s[s.p] == '_') {
			s.p++
		}
		n = vNode{kind: 'n', text: s.s[i:s.p]}
		if s.p < len(s.s) && s.s[s.p] == '(' {
			n.kind = 'c'
			s.p++
			for s.peek() != ')' {
				n.args = append(n.args, s.chain())
				if !s.ok {
					return
				}
				if s.peek() != ',' {
					break
				}
				s.p++
			}
			s.expect(')')
			return
		}
		for s.peek() == '[' {
			n.kind = 'a'
			s.p++
			n.args = append(n.args, s.chain())
			if !s.ok {
				return
			}
			s.expect(']')
			if !s.ok {
				return
			}
		}
		return
	}
	s.ok = false
	return
}

// vMatch: the tree is the chain, grouped in some way within brackets
func vMatch(t *Constraint, c vChain) bool {
	if len(c.opnd) == 1 {
		n := c.opnd[0]
		if n.kind == '(' {
			return vMatch(t, n.args[0])
		}
		if n.kind == 'n' {
			return t.Output.Identifier == n.text && len(t.Inputs) == 0 && t.Output.Type&(NumberToken|IDENTIFIER_VARIABLE) != 0
		}
		want := FUNCTION_CALL
		if n.kind == 'a' {
			want = ARRAY_CALL
		}
		if t.Output.Identifier != n.text || t.Output.Type != want || len(t.Inputs) != len(n.args) {
			return false
		}
		for i := range n.args {
			if !vMatchIn(t.Inputs[i], n.args[i]) {
				return false
			}
		}
		return true
	}
	if t.Output.Type != UNASIGNEDVAR || len(t.Inputs) != 3 {
		return false
	}
	for k := range c.ops {
		o := t.Inputs[0]
		if o.Output.Identifier == c.ops[k] && o.Output.Type&Operator != 0 && len(o.Inputs) == 0 &&
			vMatchIn(t.Inputs[1], vChain{c.ops[:k], c.opnd[:k+1]}) &&
			vMatchIn(t.Inputs[2], vChain{c.ops[k+1:], c.opnd[k+1:]}) {
			return true
		}
	}
	return false
}

// vMatchIn: an operand may be wrapped in a node that holds nothing else
func vMatchIn(t *Constraint, c vChain) bool {
	for i := 0; i < 4; i++ {
		if vMatch(t, c) {
			return true
		}
		if t.Output.Type != UNASIGNEDVAR || len(t.Inputs) != 1 {
			return false
		}
		t = t.Inputs[0]
	}
	return false
}

func vCheckExpr(src string) {
	s := &vScan{s: src, ok: true}
	want := s.chain()
	valid := s.ok && s.peek() == 0
	c, ok := vExprTree(src)
	if !valid {
		symReach("invalid")
		symAssert(!ok, "a malformed expression is accepted")
		return
	}
	symReach("valid")
	symAssert(ok, "a valid expression is rejected")
	symAssert(len(c.Inputs) == 1, "one tree per expression")
	symAssert(vMatchIn(c.Inputs[0], want), "the tree is not the expression")
}

// Every text over the alphabet up to the stated length
//
//symgo:run C14 quick time=60 steps=40000 p.n=4
//symgo:run C14 thorough time=500 steps=40000 p.n=6
func HC14_texts() {
	n := 1 + symChoose("len", symParam("n", 5))
	b := make([]byte, n)
	alpha := "x1+()[], "
	for i := range b {
		b[i] = symByte("b" + vNum(i))
		in := false
		for j := 0; j < len(alpha); j++ {
			in = in || b[i] == alpha[j]
		}
		symAssume(in)
	}
	vCheckExpr(string(b))
}

// Well-formed texts in which one position is replaced by, or followed by, an
// arbitrary character of the alphabet
//
//symgo:run C14 quick time=60 steps=80000 p.t=8
//symgo:run C14 thorough time=300 steps=80000 p.t=16
func HC14_edits() {
	t := []string{
		"f(x,g(1))", "((x+1)*(y))", "a[x][f(1)]", "(a[1]-(b))", "f((x))*(1+y)", "x+y*1-f(z)", "((a))+((b))", "f(a[1],(x))",
		"(f(x)+a[(1)])*((b))", "a[(x+1)]", "x1*(y2+f(z3,z4))", "((x+1))==(y)", "f()+g(x,)", "(x)-(y)-(z)", "a[1][2][3]", "f(g(h(x)))",
	}
	s := t[symChoose("template", symParam("t", 8))]
	k := symChoose("at", len(s)+1)
	b := symByte("b")
	alpha := "x1+*()[], "
	in := false
	for j := 0; j < len(alpha); j++ {
		in = in || b == alpha[j]
	}
	symAssume(in)
	ins := string([]byte{b})
	switch m := symChoose("edit", 3); {
	case m == 0: // insert
		s = s[:k] + ins + s[k:]
	case k == len(s):
		symStop()
	case m == 1: // replace
		s = s[:k] + ins + s[k+1:]
	default: // delete
		symAssume(b == 'x')
		s = s[:k] + s[k+1:]
	}
	vCheckExpr(s)
}

// Shapes with every operator at every position
//
//symgo:run C14 both time=60 steps=80000
func HC14_operators() {
	t := []string{"x?y", "x?y?z", "(x?y)?z", "x?(y?z)", "f(x?y)?z", "a[x?y]?f(z)", "(x?y)?(z?w)", "((x)?((y)))", "(x)?y?(z)"}
	s := []byte(t[symChoose("shape", len(t))])
	ops := []byte("+-*/<>=")
	for i := range s {
		if s[i] == '?' {
			s[i] = symByte("o" + vNum(i))
			in := false
			for _, o := range ops {
				in = in || s[i] == o
			}
			symAssume(in)
		}
	}
	vCheckExpr(string(s))
}

// Long and deep expressions, with an arbitrary character of the alphabet at
// one position
//
//symgo:run C14 quick time=100 steps=4000000 p.n=17
//symgo:run C14 thorough time=300 steps=40000000 p.n=65
func HC14_long() {
	n := vLongSize("n", symParam("n", 17))
	rep := func(s string) (r string) {
		for i := 0; i < n; i++ {
			r += s
		}
		return
	}
	var s string
	switch symChoose("form", 9) {
	case 0:
		s = rep("x+") + "1"
	case 1:
		s = rep("(") + "x" + rep(")")
	case 2:
		s = "f(" + rep("x,") + "1)"
	case 3:
		s = rep("f(") + "x" + rep(")")
	case 4:
		s = "a" + rep("[x]")
	case 5:
		s = rep("a[") + "1" + rep("]")
	case 6:
		s = rep("(x+") + "1" + rep(")")
	case 7:
		s = rep("(") + "1" + rep("+x)")
	case 8:
		s = rep("(x*f(1))+") + rep("x") + "(y)"
	}
	k := len(s) / 2
	b := symByte("b")
	alpha := "x1+()[],"
	in := false
	for j := 0; j < len(alpha); j++ {
		in = in || b == alpha[j]
	}
	symAssume(in)
	vCheckExpr(s[:k] + string([]byte{b}) + s[k+symChoose("replace", 2):])
}

// Redundant brackets do not change the tree
//
//symgo:run C14 both time=60 steps=80000
func HC14_redundant() {
	o := []string{"x", "1", "f(y)", "a[1]", "(x+y)", "f(x,(1+y))", "a[(x)]"}
	w := func(s string, n int) string {
		for i := 0; i < n; i++ {
			s = "(" + s + ")"
		}
		return s
	}
	l, r := vPick("l", o), vPick("r", o)
	op := vPick("op", []string{"+", "*", "/", "-", "=="})
	a, ok := vExprTree(l + op + r)
	symAssert(ok, "valid expression rejected")
	b, ok := vExprTree(w(w(l, symChoose("n1", 3))+op+w(r, symChoose("n2", 3)), symChoose("n3", 3)))
	symAssert(ok, "valid bracketed expression rejected")
	symAssert(vSame(vBare(a.Inputs[0]), vBare(b.Inputs[0])), "redundant brackets change the tree")
}

// vBare removes nodes that wrap a single node
func vBare(c *Constraint) *Constraint {
	for c.Output.Type == UNASIGNEDVAR && len(c.Inputs) == 1 {
		c = c.Inputs[0]
	}
	return c
}

// the names of inner nodes are the text they come from
func vSame(a, b *Constraint) bool {
	if a.Output.Type != b.Output.Type || len(a.Inputs) != len(b.Inputs) {
		return false
	}
	if a.Output.Type != UNASIGNEDVAR && a.Output.Identifier != b.Output.Identifier {
		return false
	}
	for i := range a.Inputs {
		if !vSame(vBare(a.Inputs[i]), vBare(b.Inputs[i])) {
			return false
		}
	}
	return true
}

// vStatements runs the statement parser; the constraints in order
func vStatements(src string) (r []*Constraint, ok bool) {
	p := newParser(src, false)
	toks := p.stackAllTokens()
	end := make(chan bool)
	go func() {
		end <- !symPanics(func() { p.statementMode(toks) })
	}()
	for {
		select {
		case c := <-p.constraintChan:
			r = append(r, c)
		case good := <-end:
			select {
			case <-p.done:
				ok = good
			default:
			}
			return
		}
	}
}

type vSt struct {
	text string
	want []string
}

func vTag(c *Constraint) string {
	s := c.Output.Type.String() + " " + c.Output.Identifier
	if c.Output.Type == RETURN || c.Output.Type == VARIABLE_OVERLOAD || c.Output.Type == IF || c.Output.Type == FOR || c.Output.Type == NESTED_STATEMENT_END {
		s = c.Output.Type.String()
	}
	return s
}

// Every sequence of statements is delivered completely, in order and nested as
// written
//
//symgo:run C14 both time=80 steps=200000
func HC14_statements() {
	st := []vSt{
		{"", nil},
		{"var a = x\n", []string{"var a"}},
		{"a = b\n", []string{"VARIABLE_OVERLOAD"}},
		{"a[1] = (b)\n", []string{"VARIABLE_OVERLOAD"}},
		{"f(x,y)\n", []string{"call f"}},
		{"var a[] = {x,1}\n", []string{"arrayDefine a"}},
		{"if x{\nf(1)\n}\n", []string{"if", "call f", "For ends", ""}},
		{"if x {\nf(1)\n}else{\ng(1)\n}\n", []string{"if", "call f", "For ends", "else ", "call g", "For ends", ""}},
		{"for(i<3;i=i+1){\nf(1)\n}\n", []string{"for", "call f", "For ends"}},
		{"var g = func(u){\nreturn u\n}\n", []string{"def g", "RETURN", "For ends"}},
		{"# note\n", nil},
	}
	s, want := "func main(x,y[2]){\n", []string{"def main"}
	for i := 0; i < 3; i++ {
		x := st[symChoose("s", len(st))]
		s += x.text
		want = append(want, x.want...)
	}
	s += "return x\n}\n"
	want = append(want, "RETURN", "For ends")
	c, ok := vStatements(s)
	symAssert(ok, "a valid program is rejected")
	n := 0
	for _, x := range want {
		symAssert(n < len(c), "a statement is missing")
		if x == "" {
			symAssert(c[n].Output.Type == IF_ELSE_CHAIN_END, "end of the branches")
		} else {
			symAssert(vTag(c[n]) == x, "statement "+x)
		}
		n++
	}
	symAssert(n == len(c), "an additional statement")
	f := c[0]
	symAssert(len(f.Inputs) == 3 && f.Inputs[0].Output.Identifier == "x" && f.Inputs[1].Output.Identifier == "y[0]" &&
		f.Inputs[2].Output.Identifier == "y[1]", "arguments of the function")
}

// A bracket deleted or doubled anywhere in a program is noticed
//
//symgo:run C14 both time=60 steps=200000
func HC14_unbalanced() {
	t := []string{
		"func main(x,y){\nvar a = (x+y)*y\nreturn a\n}\n",
		"func main(x,y){\nif (x==1){\nx = f(y)\n}else{\nx = y\n}\nreturn x\n}\n",
		"func main(x,y[2]){\nfor(i<3;i=i+1){\nx = x*y[1]\n}\nreturn x\n}\n",
		"public{\nx,y\n}\nfunc main(x,y){\nvar b[] = {x,(y)}\nreturn b[0]\n}\n",
		"func main(x){\nreturn f(x)\n}\nfunc f(a){\nreturn (a)\n}\n",
	}
	s := t[symChoose("program", len(t))]
	k := symChoose("at", len(s))
	bracket := false
	for _, b := range []byte("(){}[]") {
		bracket = bracket || s[k] == b
	}
	symAssume(bracket)
	_, ok := vStatements(s)
	symAssert(ok, "a valid program is rejected")
	switch e := symChoose("edit", 8); e {
	case 0:
		s = s[:k] + s[k+1:]
	case 1:
		s = s[:k] + s[k:k+1] + s[k:]
	default: // another bracket in its place
		b := "(){}[]"[e-2]
		symAssume(b != s[k])
		s = s[:k] + string([]byte{b}) + s[k+1:]
	}
	_, ok = vStatements(s)
	symAssert(!ok, "unbalanced brackets are accepted")
}

// Many statements, and statements nested deeply
//
//symgo:run C14 quick time=100 steps=4000000 p.n=17
//symgo:run C14 thorough time=300 steps=40000000 p.n=65
func HC14_many() {
	n := vLongSize("n", symParam("n", 17))
	st := []vSt{
		{"var a = x\n", []string{"var a"}},
		{"a[1] = (b)\n", []string{"VARIABLE_OVERLOAD"}},
		{"f(x,y)\n", []string{"call f"}},
		{"if x{\nf(1)\n}else{\ng(1)\n}\n", []string{"if", "call f", "For ends", "else ", "call g", "For ends", ""}},
		{"for(i<3;i=i+1){\nf(1)\n}\n", []string{"for", "call f", "For ends"}},
		{"\n# note\n\n", nil},
	}
	s, want := "func main(x,y[2]){\n", []string{"def main"}
	if form := symChoose("form", 5); form < 2 {
		k := symChoose("k", len(st))
		for i := 0; i < n; i++ {
			x := st[(k+i*form)%len(st)]
			s += x.text
			want = append(want, x.want...)
		}
	} else {
		end := []string{"For ends"}
		open, tag := "for(i<3;i=i+1){\n", "for"
		if form == 3 {
			open, tag = "if x{\n", "if"
			end = append(end, "")
		}
		if form == 4 {
			open, tag = "var g = func(u){\n", "def g"
		}
		for i := 0; i < n; i++ {
			s += open
			want = append(want, tag)
		}
		s += "f(1)\n"
		want = append(want, "call f")
		for i := 0; i < n; i++ {
			s += "}\n"
			want = append(want, end...)
		}
	}
	s += "return x\n}\n"
	want = append(want, "RETURN", "For ends")
	c, ok := vStatements(s)
	symAssert(ok, "a valid program is rejected")
	symAssert(len(c) == len(want), "number of statements")
	for i, x := range want {
		if x == "" {
			symAssert(c[i].Output.Type == IF_ELSE_CHAIN_END, "end of the branches")
		} else {
			symAssert(vTag(c[i]) == x, "statement "+x)
		}
	}
}
