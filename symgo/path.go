package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// pathAbort ends the current path (not recoverable by the program under test).
type pathAbort struct {
	kind string // "assume", "limit", "unsupported", "violation", "deadlock"
	msg  string
}

// Input is a nondeterministic input drawn by the harness on this path.
type Input struct {
	Name string
	Kind string // big, u, bool
	T    *T
}

type Violation struct {
	Harness string
	Msg     string
	Kind    string // assert, panic, limit, deadlock, race
	Inputs  []map[string]string
	Where   string
	Replay  string // reproduced / not reproduced / ...
}

type Observation struct {
	Name string
	V    Value
}

type Stats struct {
	Paths, Completed, Infeasible, Limit, Unsupported int
	Steps                                            int64
	Asserts, AssertsProved, AssertsUnknown           int
	Branches                                         int
	FF                                               ffStats
	Z3Queries                                        int
	Z3Time                                           time.Duration
	Cached, ByteQueries                              int
	UnknownBranches                                  int
	Reach                                            map[string]int
	Unsupp                                           map[string]int
	MaxSteps                                         int64
	Funcs                                            map[string]bool
	Samples                                          []Sample
}

// Sample is a solver model of a completed path with the values the engine
// predicts for the observations; it is compared against a native run.
type Sample struct {
	Inputs []map[string]string
	Obs    []string
}

func (s *Stats) add(o *Stats) {
	s.Paths += o.Paths
	s.Completed += o.Completed
	s.Infeasible += o.Infeasible
	s.Limit += o.Limit
	s.Unsupported += o.Unsupported
	s.Steps += o.Steps
	s.Asserts += o.Asserts
	s.AssertsProved += o.AssertsProved
	s.AssertsUnknown += o.AssertsUnknown
	s.Branches += o.Branches
	s.FF.Queries += o.FF.Queries
	s.FF.Sat += o.FF.Sat
	s.FF.Unsat += o.FF.Unsat
	s.FF.Unknown += o.FF.Unknown
	s.FF.Time += o.FF.Time
	s.Z3Queries += o.Z3Queries
	s.Z3Time += o.Z3Time
	s.Cached += o.Cached
	s.ByteQueries += o.ByteQueries
	s.UnknownBranches += o.UnknownBranches
	if o.MaxSteps > s.MaxSteps {
		s.MaxSteps = o.MaxSteps
	}
	if s.Reach == nil {
		s.Reach = map[string]int{}
	}
	for k, v := range o.Reach {
		s.Reach[k] += v
	}
	if s.Unsupp == nil {
		s.Unsupp = map[string]int{}
	}
	for k, v := range o.Unsupp {
		s.Unsupp[k] += v
	}
	if s.Funcs == nil {
		s.Funcs = map[string]bool{}
	}
	for k := range o.Funcs {
		s.Funcs[k] = true
	}
	s.Samples = append(s.Samples, o.Samples...)
}

type Limits struct {
	MaxSteps    int64
	MaxPaths    int
	Deadline    time.Time
	FFLimit     time.Duration
	Z3Timeout   int
	StepViol    bool // exceeding MaxSteps is a violation candidate
	MaxViol     int
	MapDev      int // at most so many maps are visited in reverse (0: any number)
	MapOrder    int // 0 insertion order, 1 also reversed, 2 every order
	Sched       int // 0: deterministic, n: up to n schedule deviations
	Race        bool
	NumSamples  int
	AllowPanics bool
}

// Explorer explores one harness.
type Explorer struct {
	prog    *Program
	harness *ssa.Function
	name    string
	params  map[string]int64
	lim     Limits
	seed    int64

	mu      sync.Mutex
	cond    *sync.Cond
	work    [][]int64
	busy    int
	stopped bool
	total   Stats
	viols   []*Violation
	violKey map[string]bool
	forks   map[string]int
	timeout bool
	nsample int
}

type Worker struct {
	ex   *Explorer
	prog *Program
	c    *Ctx
	z3   *Z3
	st   Stats
	qc   map[string]Status

	// per path
	pc       []*T
	pcset    map[int32]bool
	prefix   []int64
	trace    []int64
	inputs   []Input
	counts   map[string]int
	obs      []Observation
	globals  map[*ssa.Global]*Value
	inited   map[*ssa.Package]bool
	steps    int64
	maxst    int64
	binds    map[string]*T
	hashes   []hashClass
	opq      int
	nconf    int
	runes    map[int32][]Piece
	mapIDs   int
	sched    *Sched
	nviol    int
	groups   map[*Value]*T
	memo     map[string]any
	raceSeen bool
	fcur     *frame
	mapDev   int
}

func (ex *Explorer) run(nw int) {
	ex.cond = sync.NewCond(&ex.mu)
	ex.work = [][]int64{nil}
	ex.violKey = map[string]bool{}
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &Worker{ex: ex, prog: ex.prog, c: newCtx(), z3: newZ3(z3bin, ex.lim.Z3Timeout), qc: map[string]Status{}}
			w.st.Reach = map[string]int{}
			w.st.Unsupp = map[string]int{}
			w.st.Funcs = map[string]bool{}
			defer w.z3.close()
			n := 0
			for {
				p, ok := ex.next()
				if !ok {
					break
				}
				n++
				if len(w.c.all) > 400000 { // bound memory
					w.c = newCtx()
					w.qc = map[string]Status{}
				}
				w.runPath(p)
				ex.doneOne()
			}
			ex.mu.Lock()
			w.st.Z3Queries = w.z3.queries
			w.st.Z3Time = w.z3.time
			ex.total.add(&w.st)
			ex.mu.Unlock()
		}()
	}
	wg.Wait()
}

func (ex *Explorer) next() ([]int64, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stopped {
			return nil, false
		}
		if !ex.lim.Deadline.IsZero() && time.Now().After(ex.lim.Deadline) {
			if len(ex.work) > 0 {
				ex.timeout = true
			}
			ex.stopped = true
			ex.cond.Broadcast()
			return nil, false
		}
		if n := len(ex.work); n > 0 {
			p := ex.work[n-1]
			ex.work = ex.work[:n-1]
			ex.busy++
			return p, true
		}
		if ex.busy == 0 {
			ex.cond.Broadcast()
			return nil, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) doneOne() {
	ex.mu.Lock()
	ex.busy--
	ex.cond.Broadcast()
	ex.mu.Unlock()
}

func (ex *Explorer) push(p []int64) {
	ex.mu.Lock()
	ex.work = append(ex.work, p)
	ex.cond.Signal()
	ex.mu.Unlock()
}

func (w *Worker) runPath(prefix []int64) {
	w.pc = nil
	w.pcset = map[int32]bool{}
	w.prefix = prefix
	w.trace = nil
	w.inputs = nil
	w.counts = map[string]int{}
	w.obs = nil
	w.globals = map[*ssa.Global]*Value{}
	w.inited = map[*ssa.Package]bool{}
	w.steps = 0
	w.maxst = w.ex.lim.MaxSteps
	w.binds = map[string]*T{}
	w.hashes = nil
	w.opq = 0
	w.runes = map[int32][]Piece{}
	w.mapIDs = 0
	w.mapDev = 0
	w.nviol = 0
	w.groups = map[*Value]*T{}
	w.memo = map[string]any{}
	w.raceSeen = false
	w.st.Paths++
	outcome := w.execMain()
	w.st.Steps += w.steps
	if w.steps > w.st.MaxSteps {
		w.st.MaxSteps = w.steps
	}
	switch {
	case outcome == nil:
		w.st.Completed++
		w.maybeSample()
	default:
		switch outcome.kind {
		case "assume":
			w.st.Infeasible++
		case "limit":
			w.st.Limit++
			if w.ex.lim.StepViol {
				w.violate("limit", "does not terminate within the step bound: "+outcome.msg, w.c.True)
			}
		case "deadlock":
			w.violate("deadlock", outcome.msg, w.c.True)
		case "panic":
			if !w.ex.lim.AllowPanics {
				w.violate("panic", outcome.msg, w.c.True)
			} else {
				w.st.Completed++
			}
		case "unsupported":
			w.st.Unsupported++
			w.st.Unsupp[outcome.msg]++
		case "violation":
			w.st.Completed++
		}
	}
}

// ---- decisions

func (w *Worker) replaying() bool { return len(w.trace) < len(w.prefix) }

func (w *Worker) assume(t *T) {
	if t == w.c.True || w.pcset[t.id] {
		return
	}
	if t.op == OpAnd {
		w.assume(t.args[0])
		w.assume(t.args[1])
		return
	}
	w.pcset[t.id] = true
	w.pc = append(w.pc, t)
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (w *Worker) branch(t *T) bool {
	if t.isConst() {
		return t.u != 0
	}
	if w.pcset[t.id] {
		return true
	}
	nt := w.c.Not(t)
	if w.pcset[nt.id] {
		return false
	}
	if w.replaying() {
		d := w.prefix[len(w.trace)]
		w.trace = append(w.trace, d)
		if d == 1 {
			w.assume(t)
			return true
		}
		w.assume(nt)
		return false
	}
	w.st.Branches++
	r1, _ := w.check(t, false)
	if r1 == Unsat {
		w.trace = append(w.trace, 0)
		w.assume(nt)
		return false
	}
	r2, _ := w.check(nt, false)
	if r2 == Unsat {
		w.trace = append(w.trace, 1)
		w.assume(t)
		return true
	}
	if r1 == Unknown || r2 == Unknown {
		w.st.UnknownBranches++
	}
	if traceLevel > 0 {
		w.ex.forkSite(w.where(w.fcur))
	}
	alt := append(append([]int64{}, w.trace...), 0)
	w.ex.push(alt)
	w.trace = append(w.trace, 1)
	w.assume(t)
	return true
}

// choose picks one of n alternatives without constraints (fork).
func (w *Worker) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if w.replaying() {
		d := w.prefix[len(w.trace)]
		w.trace = append(w.trace, d)
		return int(d)
	}
	for i := n - 1; i > 0; i-- {
		w.ex.push(append(append([]int64{}, w.trace...), int64(i)))
	}
	w.trace = append(w.trace, 0)
	return 0
}

// concretize forks over the feasible values of a bit-vector.
func (w *Worker) concretize(t *T) uint64 {
	for k := 0; ; k++ {
		if t.isConst() {
			return t.u
		}
		if k > 300 {
			panic(engineError("concretization of a value with more than 300 alternatives"))
		}
		var v uint64
		if w.replaying() {
			v = uint64(w.prefix[len(w.trace)])
			w.trace = append(w.trace, int64(v))
		} else {
			st, m := w.check(w.c.True, true, t)
			if st != Sat {
				if st == Unsat {
					panic(pathAbort{"assume", "infeasible"})
				}
				panic(engineError("cannot concretize (solver unknown)"))
			}
			v = w.c.evalBV(t, m, map[int32]any{})
			w.trace = append(w.trace, int64(v))
		}
		if w.branch(w.c.Eq(t, w.c.BV(v, t.w))) {
			return v
		}
	}
}

// ---- solving

type litKind int

func isFF(t *T) bool {
	if t.op == OpNot {
		t = t.args[0]
	}
	return t.op == OpFFZ
}

func hasFF(t *T) bool {
	if t.op == OpFFZ {
		return true
	}
	if t.w == 0 {
		for _, a := range t.args {
			if a.w == 0 && hasFF(a) {
				return true
			}
		}
	}
	return false
}

// slice of pc connected to the literal
func (w *Worker) component(lits []*T, extra ...*T) []*T {
	vars := map[int32]bool{}
	for _, l := range append(append([]*T{}, lits...), extra...) {
		for v := range w.c.Vars(l) {
			vars[v] = true
		}
	}
	used := make([]bool, len(w.pc))
	out := append([]*T{}, lits...)
	for changed := true; changed; {
		changed = false
		for i, l := range w.pc {
			if used[i] {
				continue
			}
			hit := false
			vs := w.c.Vars(l)
			for v := range vs {
				if vars[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, l)
				for v := range vs {
					vars[v] = true
				}
			}
		}
	}
	return out
}

// check decides pc and t (restricted to the connected component).
func (w *Worker) check(t *T, model bool, extra ...*T) (Status, *Model) {
	if t == w.c.False {
		return Unsat, nil
	}
	lits := []*T{}
	if t != w.c.True {
		lits = append(lits, t)
	}
	comp := w.component(lits, extra...)
	return w.solve(comp, model)
}

func (w *Worker) solve(lits []*T, model bool) (Status, *Model) {
	if len(lits) == 0 {
		return Sat, newModel()
	}
	var key string
	if !model {
		ids := make([]int, len(lits))
		for i, l := range lits {
			ids[i] = int(l.id)
		}
		sort.Ints(ids)
		var sb strings.Builder
		for _, i := range ids {
			fmt.Fprintf(&sb, "%d,", i)
		}
		key = sb.String()
		if s, ok := w.qc[key]; ok {
			w.st.Cached++
			return s, nil
		}
	}
	s, m := w.solve2(lits, model)
	if !model {
		w.qc[key] = s
	}
	return s, m
}

func (w *Worker) solve2(lits []*T, model bool) (Status, *Model) {
	c := w.c
	// split boolean structure over field atoms
	for i, l := range lits {
		if isFF(l) || !hasFF(l) {
			continue
		}
		rest := append(append([]*T{}, lits[:i]...), lits[i+1:]...)
		var cases [][]*T
		neg := false
		x := l
		if l.op == OpNot {
			neg = true
			x = l.args[0]
		}
		switch x.op {
		case OpAnd:
			if !neg {
				cases = [][]*T{{x.args[0], x.args[1]}}
			} else {
				cases = [][]*T{{c.Not(x.args[0])}, {x.args[0], c.Not(x.args[1])}}
			}
		case OpOr:
			if neg {
				cases = [][]*T{{c.Not(x.args[0]), c.Not(x.args[1])}}
			} else {
				cases = [][]*T{{x.args[0]}, {c.Not(x.args[0]), x.args[1]}}
			}
		case OpEq:
			a, b := x.args[0], x.args[1]
			if neg {
				cases = [][]*T{{a, c.Not(b)}, {c.Not(a), b}}
			} else {
				cases = [][]*T{{a, b}, {c.Not(a), c.Not(b)}}
			}
		case OpIte:
			a, b := x.args[1], x.args[2]
			if neg {
				a, b = c.Not(a), c.Not(b)
			}
			cases = [][]*T{{x.args[0], a}, {c.Not(x.args[0]), b}}
		}
		if cases == nil {
			break
		}
		res := Unsat
		for _, cs := range cases {
			bad := false
			sub := append([]*T{}, rest...)
			for _, y := range cs {
				if y == c.False {
					bad = true
				}
				if y != c.True {
					sub = append(sub, y)
				}
			}
			if bad {
				continue
			}
			if len(sub) == 0 {
				return Sat, newModel()
			}
			s, m := w.solve2(sub, model)
			if s == Sat {
				return s, m
			}
			if s == Unknown {
				res = Unknown
			}
		}
		return res, nil
	}
	if s, m, ok := w.byteSolve(lits); ok {
		// z3 confirms a part of the answers
		if s == Unsat && w.nconf < 400 {
			w.nconf++
			if r := w.z3.check(c, lits, newModel()); r == Sat {
				panic(engineError("z3 contradicts a byte table"))
			}
		}
		return s, m
	}
	// fast contradictions
	set := map[int32]bool{}
	for _, l := range lits {
		set[l.id] = true
		if l == c.False || set[c.Not(l).id] {
			return Unsat, nil
		}
	}
	var q *big.Int
	pure := true
	var ff, other []*T
	for _, l := range lits {
		if isFF(l) {
			x := l
			if x.op == OpNot {
				x = x.args[0]
			}
			if q == nil {
				q = x.b
			} else if q.Cmp(x.b) != 0 {
				pure = false
				other = append(other, l)
				continue
			}
			ff = append(ff, l)
		} else {
			other = append(other, l)
			pure = false
		}
	}
	if len(ff) > 0 {
		eqs, neqs, p := w.ffSystem(ff, q)
		pure = pure && p
		t0 := time.Now()
		s, fm := ffSolve(q, eqs, neqs, w.ex.lim.FFLimit, w.ex.seed)
		w.st.FF.Queries++
		w.st.FF.Time += time.Since(t0)
		if ffDebug && time.Since(t0) > time.Second {
			fmt.Printf("slow FF query %v: %v\n", time.Since(t0), s)
			for _, e := range eqs {
				fmt.Println("   eq", c.polyString(e))
			}
			for _, e := range neqs {
				fmt.Println("   ne", c.polyString(e))
			}
		}
		switch s {
		case Unsat:
			w.st.FF.Unsat++
			return Unsat, nil
		case Sat:
			w.st.FF.Sat++
			m := newModel()
			for v, x := range fm {
				if int(v) < len(c.all) && c.all[v].op == OpVar {
					m.i[v] = x
				}
			}
			if pure {
				return Sat, m
			}
			// maybe the model already satisfies everything else
			if len(other) > 0 && w.satisfies(lits, m) {
				return Sat, m
			}
		default:
			w.st.FF.Unknown++
			if pure && q.BitLen() > 16 {
				return Unknown, nil
			}
		}
	}
	if pure && len(ff) == 0 && len(other) == 0 {
		return Sat, newModel()
	}
	m := newModel()
	s := w.z3.check(c, lits, m)
	if s == Sat && !w.satisfies(lits, m) {
		// only possible with a mis-parsed model
		if model {
			return Unknown, nil
		}
	}
	return s, m
}

func (w *Worker) satisfies(lits []*T, m *Model) (ok bool) {
	memo := map[int32]any{}
	for _, l := range lits {
		if !w.c.evalBool(l, m, memo) {
			return false
		}
	}
	// bounds of variables
	for _, l := range lits {
		for v := range w.c.Vars(l) {
			t := w.c.all[v]
			if t.w == -1 {
				x := w.c.evalInt(t, m, memo)
				if t.lo != nil && x.Cmp(t.lo) < 0 || t.hi != nil && x.Cmp(t.hi) > 0 {
					return false
				}
			}
		}
	}
	return true
}

// ffSystem collects equations and disequations (with the definitions of
// inverse atoms). pure: every atom ranges exactly over the field.
func (w *Worker) ffSystem(lits []*T, q *big.Int) (eqs, neqs []Poly, pure bool) {
	c := w.c
	pure = true
	seen := map[int32]bool{}
	var atoms []int32
	collect := func(p Poly) {
		for _, t := range p {
			for _, v := range t.m.v {
				if !seen[v] {
					seen[v] = true
					atoms = append(atoms, v)
				}
			}
		}
	}
	for _, l := range lits {
		if l.op == OpNot {
			neqs = append(neqs, l.args[0].poly)
			collect(l.args[0].poly)
		} else {
			eqs = append(eqs, l.poly)
			collect(l.poly)
		}
	}
	qm1 := new(big.Int).Sub(q, big.NewInt(1))
	for i := 0; i < len(atoms); i++ {
		a := c.all[atoms[i]]
		switch {
		case a.op == OpInv && a.b.Cmp(q) == 0:
			g := c.Resid(a.args[0], q)
			e := polySub(polyMul(g, polyVar(a.id), q, nil), polyConst(big.NewInt(1)), q)
			eqs = append(eqs, e)
			collect(e)
		case a.op == OpVar && a.lo != nil && a.hi != nil && a.lo.Sign() == 0 && a.hi.Cmp(qm1) == 0:
		case a.op == OpVar && a.lo != nil && a.hi != nil && a.lo.IsInt64() && a.lo.Int64() == 1 && a.hi.Cmp(qm1) == 0:
			neqs = append(neqs, polyVar(a.id))
		case a.op == OpVar && a.lo != nil && a.hi != nil && a.lo.Sign() == 0 && a.hi.IsInt64() && a.hi.Int64() == 1 && q.Cmp(a.hi) > 0:
			// 0/1 variable: x^2 = x
			x := polyVar(a.id)
			eqs = append(eqs, polySub(polyMul(x, x, q, nil), x, q))
		default:
			pure = false
		}
	}
	return
}

// fullModel finds a model of the whole path condition plus t.
func (w *Worker) fullModel(t *T) (Status, *Model) {
	m := newModel()
	left := append([]*T{}, w.pc...)
	if t != w.c.True {
		left = append(left, t)
	}
	all := append([]*T{}, left...)
	for len(left) > 0 {
		// component of left[len-1] within left
		save := w.pc
		w.pc = left[:len(left)-1]
		comp := w.component([]*T{left[len(left)-1]})
		w.pc = save
		in := map[int32]bool{}
		for _, l := range comp {
			in[l.id] = true
		}
		s, cm := w.solve2(comp, true)
		if s != Sat {
			return s, nil
		}
		for k, v := range cm.bv {
			m.bv[k] = v
		}
		for k, v := range cm.i {
			m.i[k] = v
		}
		var rest []*T
		for _, l := range left {
			if !in[l.id] {
				rest = append(rest, l)
			}
		}
		left = rest
	}
	if !w.satisfies(all, m) {
		return Unknown, nil
	}
	return Sat, m
}

func (w *Worker) inputValues(m *Model) []map[string]string {
	var r []map[string]string
	memo := map[int32]any{}
	for _, in := range w.inputs {
		var s string
		switch in.Kind {
		case "big":
			s = w.c.evalInt(in.T, m, memo).String()
		case "bool":
			s = "0"
			if w.c.evalBool(in.T, m, memo) {
				s = "1"
			}
		default:
			s = fmt.Sprint(w.c.evalBV(in.T, m, memo))
		}
		r = append(r, map[string]string{"name": in.Name, "kind": in.Kind, "value": s})
	}
	return r
}

// assert checks a property; on failure records a violation candidate.
func (w *Worker) assert(t *T, msg, where string) {
	w.st.Asserts++
	if t == w.c.True {
		w.st.AssertsProved++
		return
	}
	nt := w.c.Not(t)
	s, _ := w.check(nt, false)
	switch s {
	case Unsat:
		w.st.AssertsProved++
		return
	case Unknown:
		w.st.AssertsUnknown++
		w.st.Unsupp["assertion undecided: "+msg]++
		if os.Getenv("SYMGO_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "UNDECIDED %s\n  %.600s\n", msg, w.c.String(nt))
			for _, p := range w.pc {
				fmt.Fprintf(os.Stderr, "   pc %.300s\n", w.c.String(p))
			}
		}
		w.assume(t)
		return
	}
	w.violateAt("assert", msg, nt, where)
	// continue under the assumption that the assertion holds
	if s2, _ := w.check(t, false); s2 == Unsat {
		panic(pathAbort{"violation", msg})
	}
	w.assume(t)
}

func (w *Worker) violate(kind, msg string, cond *T) { w.violateAt(kind, msg, cond, "") }

func (w *Worker) violateAt(kind, msg string, cond *T, where string) {
	key := kind + "|" + msg
	ex := w.ex
	ex.mu.Lock()
	n := 0
	for _, v := range ex.viols {
		if v.Kind+"|"+v.Msg == key {
			n++
		}
	}
	full := n >= ex.lim.MaxViol
	ex.mu.Unlock()
	if full {
		return
	}
	s, m := w.fullModel(cond)
	if s != Sat {
		if s == Unknown {
			w.st.AssertsUnknown++
			w.st.Unsupp["no model for candidate: "+msg]++
		}
		return
	}
	v := &Violation{Harness: ex.name, Msg: msg, Kind: kind, Where: where, Inputs: w.inputValues(m)}
	ex.mu.Lock()
	ex.viols = append(ex.viols, v)
	ex.mu.Unlock()
}

func (w *Worker) maybeSample() {
	ex := w.ex
	ex.mu.Lock()
	take := ex.nsample < ex.lim.NumSamples
	// spread: always the first, later ones with growing gaps
	if take {
		ex.nsample++
	}
	ex.mu.Unlock()
	if !take {
		return
	}
	s, m := w.fullModel(w.c.True)
	if s != Sat {
		return
	}
	sm := Sample{Inputs: w.inputValues(m)}
	memo := map[int32]any{}
	for _, o := range w.obs {
		sm.Obs = append(sm.Obs, o.Name+"="+w.evalObs(o.V, m, memo))
	}
	w.st.Samples = append(w.st.Samples, sm)
}

func (w *Worker) evalObs(v Value, m *Model, memo map[int32]any) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case *T:
		switch {
		case x.w == 0:
			return fmt.Sprint(w.c.evalBool(x, m, memo))
		case x.w == -1:
			return w.c.evalInt(x, m, memo).String()
		default:
			return fmt.Sprint(w.c.evalBV(x, m, memo))
		}
	case Iface:
		return w.evalObs(x.v, m, memo)
	case *Str:
		var sb strings.Builder
		for _, p := range x.p {
			switch {
			case p.num != nil:
				sb.WriteString(w.c.evalInt(p.num, m, memo).String())
			case p.opq > 0:
				sb.WriteString("?")
			default:
				if u, ok := p.b.(uint64); ok {
					sb.WriteByte(byte(u))
				} else {
					sb.WriteByte(byte(w.c.evalBV(p.b.(*T), m, memo)))
				}
			}
		}
		return sb.String()
	case *Value:
		if x == nil {
			return "<nil>"
		}
		return w.evalObs(*x, m, memo)
	case Slice:
		var s []string
		for _, e := range x {
			s = append(s, w.evalObs(e, m, memo))
		}
		return "[" + strings.Join(s, " ") + "]"
	}
	return fmt.Sprint(v)
}

// profile of the program points where paths fork (-trace 1)
func (ex *Explorer) forkSite(s string) {
	ex.mu.Lock()
	if ex.forks == nil {
		ex.forks = map[string]int{}
	}
	ex.forks[s]++
	ex.mu.Unlock()
}

func (ex *Explorer) printForks() {
	var l []string
	for s := range ex.forks {
		l = append(l, s)
	}
	sort.Slice(l, func(i, j int) bool { return ex.forks[l[i]] > ex.forks[l[j]] })
	for i, s := range l {
		if i == 40 {
			break
		}
		fmt.Println("   fork", ex.forks[s], s)
	}
}
