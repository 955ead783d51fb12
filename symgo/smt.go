package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os/exec"
	"strings"
	"time"
)

// Z3 is a persistent solver process. Every query is self-contained: it is
// sent inside (push)/(pop), declarations included.
type Z3 struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	bin     string
	timeout int // ms
	queries int
	time    time.Duration
	alive   bool
}

func newZ3(bin string, timeoutMS int) *Z3 {
	return &Z3{bin: bin, timeout: timeoutMS}
}

func (z *Z3) start() error {
	z.cmd = exec.Command(z.bin, "-in", "-smt2")
	in, err := z.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := z.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := z.cmd.Start(); err != nil {
		return err
	}
	z.in, z.out = in, bufio.NewReaderSize(out, 1<<16)
	z.alive = true
	fmt.Fprintf(z.in, "(set-option :timeout %d)\n(set-option :model.completion true)\n", z.timeout)
	return nil
}

func (z *Z3) close() {
	if z.alive {
		z.in.Close()
		z.cmd.Process.Kill()
		z.cmd.Wait()
		z.alive = false
	}
}

type printer struct {
	c    *Ctx
	done map[int32]bool
	sb   strings.Builder
	vars []*T
}

func smtInt(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}

func sortName(w int) string {
	switch {
	case w == 0:
		return "Bool"
	case w == -1:
		return "Int"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (p *printer) ref(t *T) string {
	if t.op == OpConst {
		switch {
		case t.w == 0:
			if t.u == 1 {
				return "true"
			}
			return "false"
		case t.w == -1:
			return smtInt(t.b)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.u, t.w)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (p *printer) polyStr(q Poly) string {
	if len(q) == 0 {
		return "0"
	}
	var parts []string
	for _, t := range q {
		if t.m.deg == 0 {
			parts = append(parts, smtInt(t.c))
			continue
		}
		var f []string
		if !(t.c.IsInt64() && t.c.Int64() == 1) {
			f = append(f, smtInt(t.c))
		}
		for i, v := range t.m.v {
			for k := int32(0); k < t.m.e[i]; k++ {
				f = append(f, fmt.Sprintf("t%d", v))
			}
		}
		if len(f) == 1 {
			parts = append(parts, f[0])
		} else {
			parts = append(parts, "(* "+strings.Join(f, " ")+")")
		}
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

func (p *printer) define(t *T) {
	if t.op == OpConst || p.done[t.id] {
		return
	}
	p.done[t.id] = true
	for _, a := range t.args {
		p.define(a)
	}
	for _, m := range t.poly {
		for _, v := range m.m.v {
			p.define(p.c.all[v])
		}
	}
	a := make([]string, len(t.args))
	for i, x := range t.args {
		a[i] = p.ref(x)
	}
	var e string
	switch t.op {
	case OpVar, OpUF:
		fmt.Fprintf(&p.sb, "(declare-const t%d %s)\n", t.id, sortName(t.w))
		p.vars = append(p.vars, t)
		p.bounds(t)
		return
	case OpInv:
		fmt.Fprintf(&p.sb, "(declare-const t%d Int)\n", t.id)
		p.bounds(t)
		fmt.Fprintf(&p.sb, "(assert (= (mod (* t%d %s) %s) 1))\n", t.id, a[0], t.b)
		return
	case OpMod:
		// fresh variable with quotient: x = q*k + r
		fmt.Fprintf(&p.sb, "(declare-const t%d Int)\n(declare-const k%d Int)\n", t.id, t.id)
		p.bounds(t)
		fmt.Fprintf(&p.sb, "(assert (= %s (+ (* %s k%d) t%d)))\n", p.polyStr(t.poly), t.b, t.id, t.id)
		return
	case OpNot:
		e = "(not " + a[0] + ")"
	case OpAnd:
		e = "(and " + a[0] + " " + a[1] + ")"
	case OpOr:
		e = "(or " + a[0] + " " + a[1] + ")"
	case OpEq:
		e = "(= " + a[0] + " " + a[1] + ")"
	case OpUlt:
		e = "(bvult " + a[0] + " " + a[1] + ")"
	case OpSlt:
		e = "(bvslt " + a[0] + " " + a[1] + ")"
	case OpFFZ:
		e = "(= (mod " + p.polyStr(t.poly) + " " + t.b.String() + ") 0)"
	case OpIntZ:
		e = "(= " + a[0] + " 0)"
	case OpIntN:
		e = "(< " + a[0] + " 0)"
	case OpBin:
		e = "(" + t.name + " " + a[0] + " " + a[1] + ")"
	case OpBvNot:
		e = "(bvnot " + a[0] + ")"
	case OpBvNeg:
		e = "(bvneg " + a[0] + ")"
	case OpZext:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, a[0])
	case OpSext:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, a[0])
	case OpExtract:
		e = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, a[0])
	case OpIte:
		e = "(ite " + a[0] + " " + a[1] + " " + a[2] + ")"
	case OpI2BV:
		e = fmt.Sprintf("((_ int2bv %d) %s)", t.w, a[0])
	case OpPoly:
		e = p.polyStr(t.poly)
	case OpDiv:
		e = "(div " + a[0] + " " + t.b.String() + ")"
	case OpBV2I:
		if t.u == 1 {
			w := t.args[0].w
			e = fmt.Sprintf("(ite (bvslt %s (_ bv0 %d)) (- (bv2nat %s) %s) (bv2nat %s))", a[0], w, a[0], new(big.Int).Lsh(big.NewInt(1), uint(w)), a[0])
		} else {
			e = "(bv2nat " + a[0] + ")"
		}
	default:
		panic("print op")
	}
	fmt.Fprintf(&p.sb, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), e)
}

func (p *printer) bounds(t *T) {
	if t.w != -1 {
		return
	}
	if t.lo != nil {
		fmt.Fprintf(&p.sb, "(assert (<= %s t%d))\n", smtInt(t.lo), t.id)
	}
	if t.hi != nil {
		fmt.Fprintf(&p.sb, "(assert (<= t%d %s))\n", t.id, smtInt(t.hi))
	}
}

var dumpSMT func(string)

// check decides the conjunction of lits.
func (z *Z3) check(c *Ctx, lits []*T, m *Model) Status {
	t0 := time.Now()
	defer func() { z.time += time.Since(t0) }()
	z.queries++
	if !z.alive {
		if z.start() != nil {
			return Unknown
		}
	}
	p := &printer{c: c, done: map[int32]bool{}}
	for _, l := range lits {
		p.define(l)
	}
	for _, l := range lits {
		fmt.Fprintf(&p.sb, "(assert %s)\n", p.ref(l))
	}
	script := "(push)\n" + p.sb.String() + "(check-sat)\n"
	if dumpSMT != nil {
		dumpSMT(script)
	}
	// watchdog
	done := make(chan struct{})
	cmd := z.cmd
	go func() {
		select {
		case <-done:
		case <-time.After(time.Duration(z.timeout)*time.Millisecond + 10*time.Second):
			cmd.Process.Kill()
		}
	}()
	defer close(done)
	io.WriteString(z.in, script)
	r := z.readLine()
	st := Unknown
	switch r {
	case "sat":
		st = Sat
	case "unsat":
		st = Unsat
	case "unknown", "timeout":
	default:
		z.alive = false
		z.cmd.Process.Kill()
		z.cmd.Wait()
		if strings.HasPrefix(r, "(error") {
			panic(engineError("z3: " + r + "\n" + script))
		}
		return Unknown
	}
	if st == Sat && m != nil && len(p.vars) > 0 {
		var sb strings.Builder
		sb.WriteString("(get-value (")
		for _, v := range p.vars {
			fmt.Fprintf(&sb, "t%d ", v.id)
		}
		sb.WriteString("))\n")
		io.WriteString(z.in, sb.String())
		resp := z.readSexp()
		parseValues(resp, p.vars, m)
	}
	io.WriteString(z.in, "(pop)\n")
	return st
}

func (z *Z3) readLine() string {
	s, err := z.out.ReadString('\n')
	if err != nil {
		return "eof"
	}
	return strings.TrimSpace(s)
}

func (z *Z3) readSexp() string {
	var sb strings.Builder
	depth := 0
	for {
		s, err := z.out.ReadString('\n')
		if err != nil {
			return sb.String()
		}
		sb.WriteString(s)
		depth += strings.Count(s, "(") - strings.Count(s, ")")
		if depth <= 0 {
			return sb.String()
		}
	}
}

func parseValues(s string, vars []*T, m *Model) {
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(s))
	byName := map[string]*T{}
	for _, v := range vars {
		byName[fmt.Sprintf("t%d", v.id)] = v
	}
	for i := 0; i+1 < len(toks); i++ {
		v, ok := byName[toks[i]]
		if !ok || toks[i-1] != "(" {
			continue
		}
		t := toks[i+1]
		switch {
		case v.w == 0:
			if t == "true" {
				m.bv[v.id] = 1
			} else {
				m.bv[v.id] = 0
			}
		case v.w == -1:
			if t == "(" { // ( - n )
				b, _ := new(big.Int).SetString(toks[i+3], 10)
				if b != nil {
					m.i[v.id] = b.Neg(b)
				}
			} else {
				b, _ := new(big.Int).SetString(t, 10)
				m.i[v.id] = b
			}
		default:
			if strings.HasPrefix(t, "#x") {
				b, _ := new(big.Int).SetString(t[2:], 16)
				m.bv[v.id] = b.Uint64()
			} else if strings.HasPrefix(t, "#b") {
				b, _ := new(big.Int).SetString(t[2:], 2)
				m.bv[v.id] = b.Uint64()
			} else if t == "(" { // ( _ bvN w )
				b, _ := new(big.Int).SetString(strings.TrimPrefix(toks[i+3], "bv"), 10)
				if b != nil {
					m.bv[v.id] = b.Uint64()
				}
			}
		}
	}
}

type engineError string

func (e engineError) Error() string { return string(e) }
