package circuitcompiler

import "strings"

// vLex runs the lexer over a source; bad: the error handler was called
func vLex(src string) (toks []Token, bad bool) {
	l := New(src, ProbablyWhitespaceState)
	l.ErrorHandler = func(string) { bad = true }
	l.Start()
	for i := 0; ; i++ {
		t, done := l.NextToken()
		if done {
			symAssert(t == nil, "end marker with a token")
			return
		}
		symAssert(i <= len(src), "more tokens than characters")
		toks = append(toks, *t)
	}
}

func vAlpha(b byte) bool { return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' }
func vNumB(b byte) bool  { return b >= '0' && b <= '9' }
func vIdB(b byte) bool   { return vAlpha(b) || vNumB(b) || b == '_' }
func vOpB(b byte) bool   { return strings.IndexByte("=-+*/&|><!", b) >= 0 }
func vSynB(b byte) bool  { return strings.IndexByte("():,;\n{}[]", b) >= 0 }
func vBlank(b byte) bool { return b == ' ' || b == '\t' || b == '\r' }

// the longest operator at the start of s
func vLongestOp(s string) (string, TokenType) {
	if len(s) >= 2 {
		switch s[:2] {
		case "-=", "+=", "*=", "/=":
			return s[:2], AssignmentOperatorToken
		case "||", "&&":
			return s[:2], BooleanOperatorToken
		case ">>", "<<":
			return s[:2], BitOperatorToken
		case "==", "!=", ">=", "<=":
			return s[:2], BinaryComperatorToken
		}
	}
	if len(s) >= 1 {
		switch s[0] {
		case '=':
			return s[:1], AssignmentOperatorToken
		case '+', '-', '*', '/':
			return s[:1], ArithmeticOperatorToken
		case '<', '>':
			return s[:1], BinaryComperatorToken
		}
	}
	return "", 0
}

// vCheckTokens walks through the source along the tokens
func vCheckTokens(src string, toks []Token, bad bool) {
	p := 0
	nl := false // the last delivered token was a line break
	skip := func() {
		for p < len(src) && (vBlank(src[p]) || nl && src[p] == '\n') {
			p++
		}
	}
	for _, t := range toks {
		skip()
		symAssert(p < len(src), "token beyond the source")
		b := src[p]
		s := src[p:]
		symReach("token")
		nl = false
		if b == '"' {
			e := strings.IndexByte(s[1:], '"')
			symAssert(e >= 0, "unterminated name accepted")
			symAssert(t.Type == IDENTIFIER_VARIABLE && t.Identifier == s[1:1+e], "quoted name")
			p += e + 2
			continue
		}
		symAssert(len(t.Identifier) > 0, "empty token")
		symAssert(strings.HasPrefix(s, t.Identifier), "token is not the next piece of the source")
		n := len(t.Identifier)
		next := byte(' ')
		if len(s) > n {
			next = s[n]
		}
		switch {
		case vNumB(b):
			for i := 0; i < n; i++ {
				symAssert(vNumB(s[i]), "number token")
			}
			symAssert(!vNumB(next) && t.Type == NumberToken, "number cut")
		case vSynB(b):
			symAssert(n == 1 && t.Type == SyntaxToken, "syntax token")
			nl = b == '\n'
		case vIdB(b):
			for i := 0; i < n; i++ {
				symAssert(vIdB(s[i]), "identifier token")
			}
			symAssert(!vIdB(next), "identifier cut")
			want := IDENTIFIER_VARIABLE
			if next == '(' {
				want = FUNCTION_CALL
			}
			switch t.Identifier {
			case "return":
				want = RETURN
			case "var":
				want = VARIABLE_DECLARE
			case "if":
				want = IF
			case "else":
				want = ELSE
			case "for":
				want = FOR
			case "func":
				want = FUNCTION_DEFINE
			case "import":
				want = IMPORT
			case "public":
				want = PUBLIC
			}
			symAssert(t.Type == want, "kind of a word")
		case b == '#':
			symAssert(t.Type == CommentToken && strings.IndexByte(t.Identifier, '\n') < 0, "comment")
			symAssert(len(s) == n || next == '\n', "comment cut")
		default:
			op, k := vLongestOp(s)
			symAssert(op != "", "unknown character accepted")
			symAssert(t.Identifier == op && t.Type == k, "operators are not matched longest first")
		}
		p += n
	}
	skip()
	if !bad {
		symReach("end")
		symAssert(p == len(src), "rest of the source dropped")
		return
	}
	symReach("error")
	symAssert(p < len(src), "error at the end of the source")
	b := src[p]
	if b == '"' {
		symAssert(strings.IndexByte(src[p+1:], '"') < 0, "quoted name rejected")
		return
	}
	op, _ := vLongestOp(src[p:])
	symAssert(!vIdB(b) && !vSynB(b) && b != '#' && op == "", "valid source rejected")
}

// Every byte string up to the stated length
//
//symgo:run C13 quick time=60 steps=20000 p.n=3
//symgo:run C13 thorough time=600 steps=20000 p.n=4
func HC13_bytes() {
	n := 1 + symChoose("len", symParam("n", 3))
	b := make([]byte, n)
	for i := range b {
		b[i] = symByte("b" + vNum(i))
	}
	src := string(b)
	toks, bad := vLex(src)
	vCheckTokens(src, toks, bad)
}

// Programs with arbitrary bytes at the holes (written as ?)
//
//symgo:run C13 quick time=60 steps=40000 p.t=18
//symgo:run C13 thorough time=200 steps=60000 p.t=18
func HC13_holes() {
	t := []string{
		"va? x=1", "a?=b", "x #?\n\n?y", "ret?rn a", "\"a?b\"c", "f(x??)", "x=1?2", "a\n?\nb", "i?(a==b){",
		"func ?main(){", "x>?=y", "a[?]=??", "#c\n#d?", "for?(i=0;i<?3;){", "public{\n?}", "a || ?b", "var é?=1", "\"é?",
	}
	src := []byte(t[symChoose("template", symParam("t", 9))])
	for i := range src {
		if src[i] == '?' {
			src[i] = symByte("b" + vNum(i))
		}
	}
	toks, bad := vLex(string(src))
	vCheckTokens(string(src), toks, bad)
}

// The tokens do not depend on the schedule of the lexer goroutine and the
// goroutine ends.
//
//symgo:run C13 both time=60 sched=2 race=1 steps=40000
func HC13_schedule() {
	src := []string{"var a=1\n\n(b)", "((((", "a!b", "x\n\n\n\ny", "# c\n# d\n", ""}[symChoose("src", 6)]
	toks, bad := vLex(src)
	vCheckTokens(src, toks, bad)
	symAssert(symGoroutines() == 0, "the lexer goroutine does not end")
}

// Long pieces, with an arbitrary byte in the middle of them
//
//symgo:run C13 quick time=200 steps=400000 p.n=16
//symgo:run C13 thorough time=300 steps=4000000 p.n=101
func HC13_long() {
	n := vLongSize("n", symParam("n", 33))
	piece := vPick("piece", []string{"a", "7", "a1_B", "#", " ", "\n", "(", "+", "x=1\n", "\"q\" ", "f(", "#c\n", "\t\r ", "{}", "return ", "==", "x y\n"})
	b := []byte(strings.Repeat(piece, n))
	b[len(b)/2] = symByte("b")
	src := vPick("before", []string{"", "x=", "#", "\""}) + string(b) + vPick("after", []string{"", "\nz", "\" 1"})
	toks, bad := vLex(src)
	vCheckTokens(src, toks, bad)
}
