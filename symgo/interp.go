package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var engineStrict = false
var sizes = types.SizesFor("gc", "amd64")

type targetPanic struct {
	v     Value // Iface
	where string
}

type operand struct {
	k   int8 // 0 none, 1 reg, 2 const, 3 global, 4 freevar
	idx int
	v   Value
}

type instr struct {
	in  ssa.Instruction
	dst int
	ops []operand
	// cached type data
	w, w2      int
	sg, sg2    bool
	isInt      bool
	aux        any
}

type fnCode struct {
	fn       *ssa.Function
	nregs    int
	blocks   [][]instr
	nparam   int
	hasDefer bool
	intr     intrinsic
	name     string
	inRepo   bool
	model    *ssa.Function
}

type intrinsic func(w *Worker, fr *frame, fn *ssa.Function, args []Value) Value

type frame struct {
	w       *Worker
	g       *Gor
	code    *fnCode
	caller  *frame
	regs    []Value
	env     []Value
	defers  []deferred
	result  Value
	cur     *instr
	panicking bool
	pv      targetPanic
	recovered bool
}

type deferred struct {
	fn   Value
	args []Value
	pos  token.Pos
}

func (P *Program) code(fn *ssa.Function) *fnCode {
	P.mu.Lock()
	defer P.mu.Unlock()
	if c, ok := P.codes[fn]; ok {
		return c
	}
	c := &fnCode{fn: fn, name: fn.String()}
	P.codes[fn] = c
	pk := fn.Pkg
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Pkg
	}
	if pk == nil && fn.Parent() != nil {
		pk = fn.Parent().Pkg
	}
	path := ""
	if pk != nil {
		path = pk.Pkg.Path()
		pk.Build()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		path = fn.Object().Pkg().Path()
	}
	c.inRepo = strings.HasPrefix(path, modPath)
	if c.inRepo {
		if f := P.fset.Position(fn.Pos()).Filename; strings.HasPrefix(filepath.Base(f), "zz_symgo_") {
			c.inRepo = false
		}
	}
	c.model = P.models[c.name]
	if c.model == nil {
		c.intr = findIntrinsic(c.name, path, fn)
	}
	if c.intr != nil || c.model != nil {
		return c
	}
	if len(fn.Blocks) == 0 {
		return c
	}
	regs := map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		regs[p] = n
		n++
	}
	c.nparam = n
	fv := map[ssa.Value]int{}
	for i, f := range fn.FreeVars {
		fv[f] = i
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				regs[v] = n
				n++
			}
			if _, ok := in.(*ssa.Defer); ok {
				c.hasDefer = true
			}
		}
	}
	c.nregs = n
	opnd := func(v ssa.Value) operand {
		switch x := v.(type) {
		case nil:
			return operand{}
		case *ssa.Const:
			if namedPath(x.Type()) == "math/big.Int" || needsCtx(x.Type()) && x.Value == nil {
				return operand{k: 5, v: x.Type()}
			}
			return operand{k: 2, v: constVal(x)}
		case *ssa.Global:
			return operand{k: 3, v: x}
		case *ssa.Function:
			return operand{k: 2, v: x}
		case *ssa.Builtin:
			return operand{k: 2, v: x}
		case *ssa.FreeVar:
			return operand{k: 4, idx: fv[x]}
		}
		i, ok := regs[v]
		if !ok {
			panic(fmt.Sprintf("no register for %v in %v", v, fn))
		}
		return operand{k: 1, idx: i}
	}
	c.blocks = make([][]instr, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		is := make([]instr, 0, len(b.Instrs))
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			x := instr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				x.dst = regs[v]
			}
			var rands []*ssa.Value
			rands = in.Operands(rands)
			for _, r := range rands {
				if *r == nil {
					x.ops = append(x.ops, operand{})
				} else {
					x.ops = append(x.ops, opnd(*r))
				}
			}
			switch t := in.(type) {
			case *ssa.BinOp:
				x.w, x.sg, x.isInt = typeInt(t.X.Type())
				x.w2, x.sg2, _ = typeInt(t.Y.Type())
			case *ssa.UnOp:
				x.w, x.sg, x.isInt = typeInt(t.X.Type())
			case *ssa.Convert:
				x.w, x.sg, x.isInt = typeInt(t.X.Type())
				x.w2, x.sg2, _ = typeInt(t.Type())
			case *ssa.Alloc:
				x.aux = mustDeref(t.Type())
			}
			is = append(is, x)
		}
		c.blocks[bi] = is
	}
	return c
}

func needsCtx(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return (&Worker{}).zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(engineError("constVal " + t.String()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case b.Info()&types.IsFloat != 0:
		return c.Float64()
	case b.Info()&types.IsInteger != 0:
		w, sg, _ := intWidth(b)
		if sg {
			return uint64(c.Int64()) & mask(w)
		}
		return c.Uint64() & mask(w)
	}
	return opaqueObj{kind: "const " + c.String()}
}

func (fr *frame) get(o operand) Value {
	switch o.k {
	case 1:
		return fr.regs[o.idx]
	case 2:
		return o.v
	case 3:
		return fr.w.global(fr.g, o.v.(*ssa.Global))
	case 4:
		return fr.env[o.idx]
	case 5:
		return fr.w.zero(o.v.(types.Type))
	}
	return nil
}

func (w *Worker) global(g *Gor, x *ssa.Global) *Value {
	if p, ok := w.globals[x]; ok {
		return p
	}
	w.initPkg(g, x.Pkg)
	if p, ok := w.globals[x]; ok {
		return p
	}
	v := w.zero(mustDeref(x.Type()))
	p := &v
	w.globals[x] = p
	return p
}

// initPkg runs the initialisation of a package the first time it is needed.
// The repository's packages are initialised with their imports first.
func (w *Worker) initPkg(g *Gor, p *ssa.Package) {
	if p == nil || w.inited[p] {
		return
	}
	w.inited[p] = true
	p.Build()
	if strings.HasPrefix(p.Pkg.Path(), modPath) {
		for _, im := range p.Pkg.Imports() {
			if strings.HasPrefix(im.Path(), modPath) {
				w.initPkg(g, w.prog.prog.Package(im))
			}
		}
	}
	for _, m := range p.Members {
		if gl, ok := m.(*ssa.Global); ok {
			if _, ok := w.globals[gl]; !ok {
				v := w.zero(mustDeref(gl.Type()))
				w.globals[gl] = &v
			}
		}
	}
	if f := p.Func("init"); f != nil {
		// avoid cascading into imports: the init function of the package calls
		// the imported inits; those calls are skipped (see call).
		st := w.steps
		w.call(g, nil, f, nil, token.NoPos)
		w.steps = st
	}
}

func (w *Worker) where(fr *frame) string {
	var parts []string
	for f := fr; f != nil && len(parts) < 6; f = f.caller {
		if f.code == nil {
			continue
		}
		pos := token.NoPos
		if f.cur != nil {
			pos = f.cur.in.Pos()
		}
		if !pos.IsValid() {
			pos = f.code.fn.Pos()
		}
		p := w.prog.fset.Position(pos)
		if !strings.HasPrefix(p.Filename, repoDir) {
			continue
		}
		name := f.code.fn.Name()
		parts = append(parts, fmt.Sprintf("%s (%s:%d)", name, strings.TrimPrefix(p.Filename, repoDir+"/"), p.Line))
	}
	return strings.Join(parts, " < ")
}

func (w *Worker) panicRT(fr *frame, msg string) {
	wh := ""
	if fr != nil {
		wh = w.where(fr)
	}
	panic(targetPanic{Iface{types.Typ[types.String], "runtime error: " + msg}, wh})
}

func (w *Worker) panicText(v Value) string {
	if i, ok := v.(Iface); ok {
		switch x := i.v.(type) {
		case string:
			return x
		case *Str:
			return "<symbolic text>"
		}
		if i.t == nil {
			return "nil"
		}
		return "<" + i.t.String() + ">"
	}
	return fmt.Sprintf("%T", v)
}

func (w *Worker) call(g *Gor, caller *frame, fnv Value, args []Value, pos token.Pos) Value {
	switch f := fnv.(type) {
	case *ssa.Function:
		return w.callFn(g, caller, f, nil, args)
	case *Closure:
		if f == nil {
			w.panicRT(caller, "invalid memory address or nil pointer dereference (nil func)")
		}
		return w.callFn(g, caller, f.fn, f.env, args)
	case Native:
		return f.f(caller, args)
	case *ssa.Builtin:
		return w.builtin(g, caller, f, args)
	case nil:
		w.panicRT(caller, "invalid memory address or nil pointer dereference (nil func)")
	}
	panic(engineError(fmt.Sprintf("call of %T", fnv)))
}

func (w *Worker) callFn(g *Gor, caller *frame, fn *ssa.Function, env []Value, args []Value) Value {
	c := w.prog.code(fn)
	if c.model != nil {
		c = w.prog.code(c.model)
	}
	fn = c.fn
	if c.inRepo {
		w.st.Funcs[c.name] = true
	}
	if c.intr != nil {
		fr := caller
		if fr == nil {
			fr = &frame{w: w, g: g, code: c}
		}
		return c.intr(w, fr, fn, args)
	}
	if c.blocks == nil {
		if fn.Name() == "init" && fn.Synthetic != "" {
			return nil
		}
		panic(engineError("no body: " + c.name))
	}
	if fn.Synthetic == "package initializer" && caller != nil {
		return nil // imports are initialised on demand
	}
	if !c.inRepo && fn.Pkg != nil && fn.Name() != "init" {
		w.initPkgStd(g, fn.Pkg)
	}
	g.depth++
	if g.depth > 3000 {
		panic(pathAbort{"limit", "recursion deeper than 3000 calls at " + w.where(caller)})
	}
	fr := &frame{w: w, g: g, code: c, caller: caller, env: env}
	fr.regs = make([]Value, c.nregs)
	copy(fr.regs, args)
	if c.hasDefer {
		w.runDeferred(fr)
	} else {
		w.exec(fr)
	}
	g.depth--
	return fr.result
}

func (w *Worker) initPkgStd(g *Gor, p *ssa.Package) {}

// runDeferred executes a function that has defer statements.
func (w *Worker) runDeferred(fr *frame) {
	depth := fr.g.depth
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				fr.g.depth = depth
				fr.panicking = true
				fr.pv = tp
				w.runDefers(fr)
				if fr.panicking {
					panic(fr.pv)
				}
				// recovered: run the recover block (named results)
				fr.result = w.zeroResult(fr.code.fn)
				if rb := fr.code.fn.Recover; rb != nil {
					w.execFrom(fr, rb.Index)
				}
			}
		}()
		w.exec(fr)
	}()
}

func (w *Worker) zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return w.zero(r.At(0).Type())
	}
	return w.zero(r)
}

func (w *Worker) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth := fr.g.depth
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					fr.g.depth = depth
					fr.panicking = true
					fr.pv = tp
				}
			}()
			w.call(fr.g, fr, d.fn, d.args, d.pos)
		}()
	}
}

func (w *Worker) exec(fr *frame) { w.execFrom(fr, 0) }

func (w *Worker) execFrom(fr *frame, start int) {
	code := fr.code
	prev := -1
	bi := start
	fnBlocks := code.fn.Blocks
	for {
		blk := code.blocks[bi]
		i := 0
		// phis first (parallel assignment)
		if len(blk) > 0 {
			if _, ok := blk[0].in.(*ssa.Phi); ok {
				var idx int
				for k, p := range fnBlocks[bi].Preds {
					if p.Index == prev {
						idx = k
						break
					}
				}
				var tmp [8]Value
				vals := tmp[:0]
				n := 0
				for n < len(blk) {
					if _, ok := blk[n].in.(*ssa.Phi); !ok {
						break
					}
					vals = append(vals, fr.get(blk[n].ops[idx]))
					n++
				}
				for k := 0; k < n; k++ {
					fr.regs[blk[k].dst] = vals[k]
				}
				i = n
			}
		}
		w.fcur = fr
		w.steps += int64(len(blk))
		if w.steps > w.maxst {
			panic(pathAbort{"limit", fmt.Sprintf("more than %d instructions at %s", w.maxst, w.where(fr))})
		}
		next := -1
		for ; i < len(blk); i++ {
			in := &blk[i]
			fr.cur = in
			switch t := in.in.(type) {
			case *ssa.If:
				c := fr.get(in.ops[0])
				var b bool
				switch x := c.(type) {
				case bool:
					b = x
				case *T:
					b = w.branch(x)
				}
				if b {
					next = fnBlocks[bi].Succs[0].Index
				} else {
					next = fnBlocks[bi].Succs[1].Index
				}
			case *ssa.Jump:
				next = fnBlocks[bi].Succs[0].Index
			case *ssa.Return:
				switch len(in.ops) {
				case 0:
					fr.result = nil
				case 1:
					fr.result = fr.get(in.ops[0])
				default:
					r := make(Tuple, len(in.ops))
					for k, o := range in.ops {
						r[k] = fr.get(o)
					}
					fr.result = r
				}
				return
			case *ssa.Panic:
				panic(targetPanic{fr.get(in.ops[0]), w.where(fr)})
			case *ssa.RunDefers:
				w.runDefers(fr)
				if fr.panicking {
					panic(fr.pv)
				}
			default:
				_ = t
				w.step(fr, in)
			}
		}
		if next < 0 {
			panic(engineError("fell off block in " + code.name))
		}
		prev, bi = bi, next
	}
}

func (w *Worker) posf(fr *frame) func() string { return func() string { return w.where(fr) } }

// track records a memory access of a cell (and its parts).
func (w *Worker) track(fr *frame, p *Value, write bool) {
	s := w.sched
	if !s.tracking() {
		return
	}
	if write {
		s.write(fr.g, p, w.posf(fr))
	} else {
		s.read(fr.g, p, w.posf(fr))
	}
	switch x := (*p).(type) {
	case Struct:
		for i := range x {
			w.track(fr, &x[i], write)
		}
	case Array:
		for i := range x {
			w.track(fr, &x[i], write)
		}
	}
}

func (w *Worker) deref(fr *frame, v Value) *Value {
	switch p := v.(type) {
	case *Value:
		if p == nil {
			w.panicRT(fr, "invalid memory address or nil pointer dereference")
		}
		return p
	}
	panic(engineError(fmt.Sprintf("deref of %T at %s", v, w.where(fr))))
}

// concInt gives a concrete value (forking when symbolic).
func (w *Worker) concInt(v Value) uint64 {
	switch x := v.(type) {
	case uint64:
		return x
	case *T:
		return w.concretize(x)
	}
	panic(engineError(fmt.Sprintf("concInt of %T", v)))
}

// index resolves an index of a sequence of length n with bounds check.
func (w *Worker) index(fr *frame, v Value, n int, wd int, sg bool) int {
	switch x := v.(type) {
	case uint64:
		var k int64
		if sg {
			k = sx(x, wd)
		} else {
			if x > 1<<62 {
				k = -1
			} else {
				k = int64(x)
			}
		}
		if k < 0 || k >= int64(n) {
			w.panicRT(fr, fmt.Sprintf("index out of range [%d] with length %d", k, n))
		}
		return int(k)
	case *T:
		t := w.c.Resize(x, 64, sg)
		if !w.branch(w.c.Lt(t, w.c.BV(uint64(n), 64), false)) {
			w.panicRT(fr, fmt.Sprintf("index out of range with length %d", n))
		}
		return int(w.concretize(t))
	}
	panic(engineError(fmt.Sprintf("index of %T", v)))
}

func (w *Worker) idxOf(fr *frame, t ssa.Value, v Value, n int) int {
	wd, sg, _ := typeInt(t.Type())
	return w.index(fr, v, n, wd, sg)
}

func (w *Worker) step(fr *frame, in *instr) {
	switch t := in.in.(type) {
	case *ssa.Alloc:
		z := w.zero(in.aux.(types.Type))
		if t.Heap {
			p := new(Value)
			*p = z
			fr.regs[in.dst] = p
		} else {
			// a fresh cell per execution is equivalent (not address-taken beyond)
			p := new(Value)
			*p = z
			fr.regs[in.dst] = p
		}
	case *ssa.BinOp:
		fr.regs[in.dst] = w.binop(fr, in, t.Op, fr.get(in.ops[0]), fr.get(in.ops[1]), t.X.Type())
	case *ssa.UnOp:
		fr.regs[in.dst] = w.unop(fr, in, t)
	case *ssa.Call:
		fr.regs[in.dst] = w.doCall(fr, in, &t.Call)
	case *ssa.ChangeType:
		fr.regs[in.dst] = fr.get(in.ops[0])
	case *ssa.ChangeInterface:
		fr.regs[in.dst] = fr.get(in.ops[0])
	case *ssa.MakeInterface:
		v := fr.get(in.ops[0])
		fr.regs[in.dst] = Iface{t.X.Type(), copyVal(v)}
	case *ssa.Convert:
		fr.regs[in.dst] = w.convert(fr, in, t.Type(), t.X.Type(), fr.get(in.ops[0]))
	case *ssa.MultiConvert:
		fr.regs[in.dst] = w.convert(fr, in, t.Type(), t.X.Type(), fr.get(in.ops[0]))
	case *ssa.SliceToArrayPointer:
		panic(engineError("SliceToArrayPointer"))
	case *ssa.Store:
		p := w.deref(fr, fr.get(in.ops[0]))
		v := fr.get(in.ops[1])
		w.track(fr, p, true)
		storeInto(p, v)
	case *ssa.FieldAddr:
		p := w.deref(fr, fr.get(in.ops[0]))
		s, ok := (*p).(Struct)
		if !ok {
			panic(engineError(fmt.Sprintf("FieldAddr on %T at %s", *p, w.where(fr))))
		}
		fr.regs[in.dst] = &s[t.Field]
	case *ssa.Field:
		s, ok := fr.get(in.ops[0]).(Struct)
		if !ok {
			panic(engineError("Field on " + t.X.Type().String()))
		}
		fr.regs[in.dst] = s[t.Field]
	case *ssa.IndexAddr:
		x := fr.get(in.ops[0])
		switch a := x.(type) {
		case Slice:
			fr.regs[in.dst] = &a[w.idxOf(fr, t.Index, fr.get(in.ops[1]), len(a))]
		case *BigBytes:
			s := w.force(fr, a)
			fr.regs[in.dst] = &s[w.idxOf(fr, t.Index, fr.get(in.ops[1]), len(s))]
		case *Value:
			p := w.deref(fr, a)
			arr := (*p).(Array)
			fr.regs[in.dst] = &arr[w.idxOf(fr, t.Index, fr.get(in.ops[1]), len(arr))]
		default:
			panic(engineError(fmt.Sprintf("IndexAddr on %T", x)))
		}
	case *ssa.Index:
		x := fr.get(in.ops[0])
		switch a := x.(type) {
		case Array:
			fr.regs[in.dst] = a[w.idxOf(fr, t.Index, fr.get(in.ops[1]), len(a))]
		case string, *Str:
			fr.regs[in.dst] = w.strIndex(fr, a, t.Index, fr.get(in.ops[1]))
		default:
			panic(engineError(fmt.Sprintf("Index on %T", x)))
		}
	case *ssa.Lookup:
		x := fr.get(in.ops[0])
		k := fr.get(in.ops[1])
		switch a := x.(type) {
		case *MapV:
			if a != nil && w.sched.tracking() {
				w.sched.read(fr.g, a, w.posf(fr))
			}
			v, ok := w.mapGet(a, k)
			if !ok {
				v = w.zero(t.X.Type().Underlying().(*types.Map).Elem())
			}
			if t.CommaOk {
				fr.regs[in.dst] = Tuple{copyVal(v), ok}
			} else {
				fr.regs[in.dst] = copyVal(v)
			}
		default:
			fr.regs[in.dst] = w.strIndex(fr, x, t.Index, k)
		}
	case *ssa.MapUpdate:
		m, _ := fr.get(in.ops[0]).(*MapV)
		if m == nil {
			w.panicRT(fr, "assignment to entry in nil map")
		}
		if w.sched.tracking() {
			w.sched.write(fr.g, m, w.posf(fr))
		}
		w.mapSet(m, fr.get(in.ops[1]), copyVal(fr.get(in.ops[2])))
	case *ssa.MakeMap:
		w.mapIDs++
		fr.regs[in.dst] = &MapV{idx: map[any]int{}, id: w.mapIDs}
	case *ssa.MakeSlice:
		n := int64(w.concInt(fr.get(in.ops[0])))
		c := int64(w.concInt(fr.get(in.ops[1])))
		if n < 0 || n > 1<<26 {
			w.panicRT(fr, "makeslice: len out of range")
		}
		if c < n || c > 1<<26 {
			w.panicRT(fr, "makeslice: cap out of range")
		}
		s := make(Slice, n, c)
		el := t.Type().Underlying().(*types.Slice).Elem()
		f := s[:c]
		for i := range f {
			f[i] = w.zero(el)
		}
		fr.regs[in.dst] = s
	case *ssa.MakeChan:
		n := int(w.concInt(fr.get(in.ops[0])))
		fr.regs[in.dst] = &ChanV{cap: n}
	case *ssa.MakeClosure:
		env := make([]Value, len(in.ops)-1)
		for i := range env {
			env[i] = fr.get(in.ops[i+1])
		}
		fr.regs[in.dst] = &Closure{in.ops[0].v.(*ssa.Function), env}
	case *ssa.Slice:
		fr.regs[in.dst] = w.doSlice(fr, in, t)
	case *ssa.Extract:
		fr.regs[in.dst] = fr.get(in.ops[0]).(Tuple)[t.Index]
	case *ssa.TypeAssert:
		fr.regs[in.dst] = w.typeAssert(fr, t, fr.get(in.ops[0]))
	case *ssa.Range:
		fr.regs[in.dst] = w.mkRange(fr, fr.get(in.ops[0]))
	case *ssa.Next:
		fr.regs[in.dst] = fr.get(in.ops[0]).(iterator).next(w)
	case *ssa.Defer:
		fn, args := w.prepCall(fr, in, &t.Call)
		fr.defers = append(fr.defers, deferred{fn, args, t.Pos()})
	case *ssa.Go:
		fn, args := w.prepCall(fr, in, &t.Call)
		w.spawn(fr.g, fn, args, t.Pos())
	case *ssa.Send:
		ch, _ := fr.get(in.ops[0]).(*ChanV)
		w.chanSend(fr.g, ch, copyVal(fr.get(in.ops[1])))
	case *ssa.Select:
		w.selectInstr(fr, in, t)
	default:
		panic(engineError(fmt.Sprintf("instruction %T", in.in)))
	}
}

func (w *Worker) selectInstr(fr *frame, in *instr, t *ssa.Select) {
	var cs []selCase
	for _, s := range t.States {
		c := selCase{}
		c.ch, _ = w.val(fr, s.Chan).(*ChanV)
		if s.Dir == types.SendOnly {
			c.send = true
			c.v = w.val(fr, s.Send)
		}
		cs = append(cs, c)
	}
	i, v, ok := w.doSelect(fr.g, cs, t.Blocking)
	r := Tuple{uint64(int64(i)), ok}
	for k, s := range t.States {
		if s.Dir == types.RecvOnly {
			if k == i && v != nil {
				r = append(r, v)
			} else {
				r = append(r, w.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	fr.regs[in.dst] = r
}

// val finds the operand of the current instruction for ssa value v.
func (w *Worker) val(fr *frame, v ssa.Value) Value {
	var rands []*ssa.Value
	rands = fr.cur.in.Operands(rands)
	for i, r := range rands {
		if *r == v {
			return fr.get(fr.cur.ops[i])
		}
	}
	panic(engineError("operand not found"))
}

func (w *Worker) prepCall(fr *frame, in *instr, c *ssa.CallCommon) (Value, []Value) {
	// Operands order for CallCommon: Value, Args...
	fnv := fr.get(in.ops[0])
	if c.IsInvoke() {
		iv, ok := fnv.(Iface)
		if !ok {
			panic(engineError(fmt.Sprintf("invoke on %T", fnv)))
		}
		if iv.t == nil {
			w.panicRT(fr, "invalid memory address or nil pointer dereference (method call on nil interface)")
		}
		args := make([]Value, 0, len(c.Args)+1)
		args = append(args, iv.v)
		for i := range c.Args {
			args = append(args, fr.get(in.ops[i+1]))
		}
		return w.method(iv.t, c.Method), args
	}
	args := make([]Value, len(c.Args))
	for i := range c.Args {
		args[i] = fr.get(in.ops[i+1])
	}
	return fnv, args
}

func (w *Worker) method(t types.Type, m *types.Func) Value {
	if o, ok := t.(*opaqueType); ok {
		f := o.methods[m.Name()]
		if f == nil {
			panic(engineError("method " + m.Name() + " of opaque " + o.name))
		}
		return Native{m.Name(), f}
	}
	P := w.prog
	k := methKey{t, m}
	P.mu.Lock()
	f, ok := P.msets[k]
	P.mu.Unlock()
	if ok {
		return f
	}
	f = P.prog.LookupMethod(t, m.Pkg(), m.Name())
	if f == nil {
		panic(engineError("no method " + m.Name() + " on " + t.String()))
	}
	P.mu.Lock()
	P.msets[k] = f
	P.mu.Unlock()
	return f
}

func (w *Worker) doCall(fr *frame, in *instr, c *ssa.CallCommon) Value {
	fn, args := w.prepCall(fr, in, c)
	for i, a := range args {
		switch a.(type) {
		case Struct, Array:
			args[i] = copyVal(a)
		}
	}
	if b, ok := fn.(*ssa.Builtin); ok {
		return w.builtinTyped(fr, b, args, c)
	}
	v := w.call(fr.g, fr, fn, args, c.Pos())
	fr.cur = in
	return v
}

// opaqueType is the dynamic type of engine-implemented interface values.
type opaqueType struct {
	name    string
	methods map[string]func(fr *frame, args []Value) Value
}

func (o *opaqueType) Underlying() types.Type { return o }
func (o *opaqueType) String() string         { return o.name }

func (w *Worker) typeAssert(fr *frame, t *ssa.TypeAssert, v Value) Value {
	iv := v.(Iface)
	ok := false
	var r Value
	if iv.t != nil {
		if it, isI := t.AssertedType.Underlying().(*types.Interface); isI {
			if o, isO := iv.t.(*opaqueType); isO {
				ok = true
				for i := 0; i < it.NumMethods(); i++ {
					if o.methods[it.Method(i).Name()] == nil {
						ok = false
					}
				}
			} else {
				ok = types.Implements(iv.t, it)
			}
			r = iv
		} else {
			ok = types.Identical(iv.t, t.AssertedType)
			r = copyVal(iv.v)
		}
	}
	if !ok {
		if t.CommaOk {
			return Tuple{w.zero(t.AssertedType), false}
		}
		w.panicRT(fr, fmt.Sprintf("interface conversion: interface is not %s", t.AssertedType))
	}
	if t.CommaOk {
		return Tuple{r, true}
	}
	return r
}

func (w *Worker) strIndex(fr *frame, s Value, idx ssa.Value, k Value) Value {
	switch x := s.(type) {
	case string:
		return uint64(x[w.idxOf(fr, idx, k, len(x))])
	case *Str:
		n, ok := strLen(x)
		if !ok {
			// index within a literal prefix
			if kk, isC := k.(uint64); isC && kk < uint64(len(x.p)) {
				for i := 0; i <= int(kk); i++ {
					if x.p[i].num != nil || x.p[i].opq > 0 {
						panic(engineError("index into symbolic number text"))
					}
				}
				return x.p[kk].b
			}
			panic(engineError("index into string of unknown length"))
		}
		return x.p[w.idxOf(fr, idx, k, n)].b
	}
	panic(engineError(fmt.Sprintf("strIndex %T", s)))
}

// ---- slices

func (w *Worker) doSlice(fr *frame, in *instr, t *ssa.Slice) Value {
	x := fr.get(in.ops[0])
	opt := func(i int, v ssa.Value) (int64, bool) {
		if v == nil {
			return 0, false
		}
		u := w.concInt(fr.get(in.ops[i]))
		wd, sg, _ := typeInt(v.Type())
		if sg {
			return sx(u, wd), true
		}
		return int64(u), true
	}
	lo, hasLo := opt(1, t.Low)
	hi, hasHi := opt(2, t.High)
	mx, hasMx := opt(3, t.Max)
	_ = hasLo
	switch a := x.(type) {
	case string, *Str:
		n, ok := strLen(a)
		if !ok {
			if !hasLo && !hasHi {
				return a
			}
			p := toPieces(a)
			lim := hi
			if !hasHi {
				// the tail may be complex
				for i := 0; i < int(lo); i++ {
					if p[i].num != nil || p[i].opq > 0 {
						panic(engineError("slice of symbolic number text"))
					}
				}
				return fromPieces(p[lo:])
			}
			for i := 0; i < int(lim); i++ {
				if i >= len(p) || p[i].num != nil || p[i].opq > 0 {
					panic(engineError("slice of symbolic number text"))
				}
			}
			return fromPieces(p[lo:lim])
		}
		if !hasHi {
			hi = int64(n)
		}
		if lo < 0 || hi < lo || hi > int64(n) {
			w.panicRT(fr, fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		if s, ok := a.(string); ok {
			return s[lo:hi]
		}
		return fromPieces(a.(*Str).p[lo:hi])
	case *BigBytes:
		x = w.force(fr, a)
	}
	var s Slice
	switch a := x.(type) {
	case Slice:
		s = a
	case *Value:
		p := w.deref(fr, a)
		s = Slice((*p).(Array))
	default:
		panic(engineError(fmt.Sprintf("slice of %T", x)))
	}
	if !hasHi {
		hi = int64(len(s))
	}
	if !hasMx {
		mx = int64(cap(s))
	}
	if lo < 0 || hi < lo || hi > mx || mx > int64(cap(s)) {
		w.panicRT(fr, fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(s)))
	}
	if s == nil {
		return s
	}
	return s[lo:hi:mx]
}

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, newLen int, esz int64) int {
	newcap := oldCap
	double := newcap + newcap
	if newLen > double {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = double
	} else {
		for newcap < newLen {
			newcap += (newcap + 3*256) >> 2
		}
	}
	if esz == 0 {
		return newLen
	}
	mem := int64(newcap) * esz
	if mem <= 32768 {
		for _, c := range sizeClasses {
			if c >= mem {
				mem = c
				break
			}
		}
	} else {
		mem = (mem + 8191) / 8192 * 8192
	}
	return int(mem / esz)
}

func (w *Worker) appendSlice(fr *frame, s Slice, add []Value, el types.Type) Slice {
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		for i, v := range add {
			w.track(fr, &r[len(s)+i], true)
			storeInto(&r[len(s)+i], v)
		}
		return r
	}
	c := growCap(cap(s), n, sizes.Sizeof(el))
	if c < n {
		c = n
	}
	r := make(Slice, n, c)
	for i := range s {
		w.track(fr, &s[i], false)
		r[i] = copyVal(s[i])
	}
	for i, v := range add {
		r[len(s)+i] = copyVal(v)
	}
	f := r[:c]
	for i := n; i < c; i++ {
		f[i] = w.zero(el)
	}
	return r
}

func (w *Worker) bytesOf(fr *frame, v Value) Slice {
	switch x := v.(type) {
	case Slice:
		return x
	case *BigBytes:
		return w.force(fr, x)
	case string:
		r := make(Slice, len(x))
		for i := 0; i < len(x); i++ {
			r[i] = uint64(x[i])
		}
		return r
	case *Str:
		r := make(Slice, len(x.p))
		for i, p := range x.p {
			if p.num != nil || p.opq > 0 {
				panic(engineError("bytes of symbolic number text"))
			}
			r[i] = p.b
		}
		return r
	}
	panic(engineError(fmt.Sprintf("bytesOf %T", v)))
}

func (w *Worker) builtin(g *Gor, fr *frame, b *ssa.Builtin, args []Value) Value {
	if fr == nil {
		fr = &frame{w: w, g: g}
	}
	return w.builtinTyped(fr, b, args, nil)
}

func (w *Worker) builtinTyped(fr *frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case Slice:
			if b.Name() == "cap" {
				return uint64(cap(x))
			}
			return uint64(len(x))
		case *BigBytes:
			return uint64(len(w.force(fr, x)))
		case string:
			return uint64(len(x))
		case *Str:
			n, ok := strLen(x)
			if !ok {
				panic(engineError("length of symbolic number text"))
			}
			return uint64(n)
		case Array:
			return uint64(len(x))
		case *Value:
			return uint64(len((*x).(Array)))
		case *MapV:
			if x == nil {
				return uint64(0)
			}
			if w.sched.tracking() {
				w.sched.read(fr.g, x, w.posf(fr))
			}
			return uint64(x.n)
		case *ChanV:
			if x == nil {
				return uint64(0)
			}
			if b.Name() == "cap" {
				return uint64(x.cap)
			}
			return uint64(len(x.buf))
		}
	case "append":
		sl, _ := args[0].(Slice)
		if bb, ok := args[0].(*BigBytes); ok {
			sl = w.force(fr, bb)
		}
		var el types.Type = types.Typ[types.Byte]
		if c != nil {
			if st, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
				el = st.Elem()
			}
		} else if sig, ok := b.Type().(*types.Signature); ok {
			el = sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		}
		if len(args) == 1 {
			return sl
		}
		var add []Value
		if args[1] != nil {
			add = w.bytesOf(fr, args[1])
		}
		if w.sched.tracking() {
			for i := range add {
				if a, ok := args[1].(Slice); ok {
					w.track(fr, &a[i], false)
				}
			}
		}
		if len(add) == 0 {
			return sl
		}
		return w.appendSlice(fr, sl, add, el)
	case "copy":
		dst := w.bytesOf(fr, args[0])
		src := w.bytesOf(fr, args[1])
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			if w.sched.tracking() {
				if _, ok := args[1].(Slice); ok {
					w.track(fr, &src[i], false)
				}
				w.track(fr, &dst[i], true)
			}
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			storeInto(&dst[i], tmp[i])
		}
		return uint64(n)
	case "delete":
		m, _ := args[0].(*MapV)
		if m != nil {
			if w.sched.tracking() {
				w.sched.write(fr.g, m, w.posf(fr))
			}
			w.mapDel(m, args[1])
		}
		return nil
	case "close":
		ch, _ := args[0].(*ChanV)
		w.chanClose(fr.g, ch)
		return nil
	case "panic":
		panic(targetPanic{args[0], w.where(fr)})
	case "recover":
		// called from a deferred function: fr is the deferred function's frame,
		// its caller is the panicking frame
		c := fr.caller
		if c != nil && c.panicking {
			c.panicking = false
			return c.pv.v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		wd, sg, isInt := typeInt(c.Args[0].Type())
		if !isInt {
			panic(engineError("min/max on non-integers"))
		}
		for _, a := range args[1:] {
			lt := w.c.Lt(w.bv(a, wd), w.bv(r, wd), sg)
			if b.Name() == "max" {
				lt = w.c.Lt(w.bv(r, wd), w.bv(a, wd), sg)
			}
			r = w.unbv(w.c.Ite(lt, w.bv(a, wd), w.bv(r, wd)))
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				*x = MapV{idx: map[any]int{}, id: x.id}
			}
			return nil
		}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			w.panicRT(fr, "value method called using nil pointer")
		}
		return args[0]
	}
	panic(engineError("builtin " + b.Name()))
}

// ---- operators

func (w *Worker) unop(fr *frame, in *instr, t *ssa.UnOp) Value {
	x := fr.get(in.ops[0])
	switch t.Op {
	case token.MUL:
		p := w.deref(fr, x)
		w.track(fr, p, false)
		return copyVal(*p)
	case token.ARROW:
		ch, _ := x.(*ChanV)
		v, ok := w.chanRecv(fr.g, ch)
		if !ok {
			v = w.zero(t.X.Type().Underlying().(*types.Chan).Elem())
		}
		if t.CommaOk {
			return Tuple{v, ok}
		}
		return v
	case token.NOT:
		switch b := x.(type) {
		case bool:
			return !b
		case *T:
			return w.unbool(w.c.Not(b))
		}
	case token.SUB:
		switch v := x.(type) {
		case uint64:
			return (-v) & mask(in.w)
		case float64:
			return -v
		case *T:
			return w.unbv(w.c.BVNeg(v))
		}
	case token.XOR:
		switch v := x.(type) {
		case uint64:
			return (^v) & mask(in.w)
		case *T:
			return w.unbv(w.c.BVNot(v))
		}
	}
	panic(engineError(fmt.Sprintf("unop %v %T", t.Op, x)))
}

func (w *Worker) binop(fr *frame, in *instr, op token.Token, x, y Value, t types.Type) Value {
	switch a := x.(type) {
	case uint64:
		if b, ok := y.(uint64); ok && in.isInt {
			return w.binInt(fr, in, op, a, b)
		}
	case float64:
		b := y.(float64)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		case token.EQL:
			return a == b
		case token.NEQ:
			return a != b
		}
	}
	switch op {
	case token.EQL:
		return w.unbool(w.equal(x, y, t))
	case token.NEQ:
		return w.unbool(w.c.Not(w.equal(x, y, t)))
	}
	if isStr(x) || isStr(y) {
		switch op {
		case token.ADD:
			return strConcat(x, y)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			a, ok1 := x.(string)
			b, ok2 := y.(string)
			if ok1 && ok2 {
				switch op {
				case token.LSS:
					return a < b
				case token.LEQ:
					return a <= b
				case token.GTR:
					return a > b
				default:
					return a >= b
				}
			}
			switch op {
			case token.LSS:
				return w.unbool(w.strLess(x, y))
			case token.GTR:
				return w.unbool(w.strLess(y, x))
			case token.LEQ:
				return w.unbool(w.c.Not(w.strLess(y, x)))
			default:
				return w.unbool(w.c.Not(w.strLess(x, y)))
			}
		}
	}
	if in.isInt {
		return w.binSym(fr, in, op, x, y)
	}
	panic(engineError(fmt.Sprintf("binop %v %T %T at %s", op, x, y, w.where(fr))))
}

func isStr(v Value) bool {
	switch v.(type) {
	case string, *Str:
		return true
	}
	return false
}

func (w *Worker) strLess(x, y Value) *T {
	a, b := toPieces(x), toPieces(y)
	c := w.c
	if hasComplex(a) || hasComplex(b) {
		// decide the common literal prefix; the order of decimal texts of
		// different numbers is left open (both orders are explored)
		for len(a) > 0 && len(b) > 0 {
			p, q := a[0], b[0]
			if p.opq > 0 || q.opq > 0 {
				panic(engineError("ordering of opaque text"))
			}
			if p.num == nil && q.num == nil {
				if w.branch(w.byteEq(p.b, q.b)) {
					a, b = a[1:], b[1:]
					continue
				}
				return c.Lt(w.bv(p.b, 8), w.bv(q.b, 8), false)
			}
			if p.num != nil && q.num != nil {
				if delim(a[1:]) && delim(b[1:]) && w.branch(c.IntEq(p.num, q.num)) {
					a, b = a[1:], b[1:]
					continue
				}
				if p.num.id < q.num.id {
					return c.Var(fmt.Sprintf("textless_%d_%d", p.num.id, q.num.id), 0)
				}
				return c.Not(c.Var(fmt.Sprintf("textless_%d_%d", q.num.id, p.num.id), 0))
			}
			// a number against literal text
			if w.branch(w.piecesEq(a, b)) {
				return c.False
			}
			if p.num != nil {
				return c.Var(fmt.Sprintf("textless_%d_%s", p.num.id, litKey(b)), 0)
			}
			return c.Not(c.Var(fmt.Sprintf("textless_%d_%s", q.num.id, litKey(a)), 0))
		}
		return c.Bool(len(a) == 0 && len(b) > 0)
	}
	var rec func(i int) *T
	rec = func(i int) *T {
		if i >= len(b) {
			return c.False
		}
		if i >= len(a) {
			return c.True
		}
		p, q := w.bv(a[i].b, 8), w.bv(b[i].b, 8)
		return c.Or(c.Lt(p, q, false), c.And(c.Eq(p, q), rec(i+1)))
	}
	return rec(0)
}

func (w *Worker) binInt(fr *frame, in *instr, op token.Token, a, b uint64) Value {
	m := mask(in.w)
	switch op {
	case token.ADD:
		return (a + b) & m
	case token.SUB:
		return (a - b) & m
	case token.MUL:
		return (a * b) & m
	case token.QUO, token.REM:
		if b == 0 {
			w.panicRT(fr, "integer divide by zero")
		}
		if in.sg {
			x, y := sx(a, in.w), sx(b, in.w)
			if y == -1 {
				if op == token.QUO {
					return uint64(-x) & m
				}
				return uint64(0)
			}
			if op == token.QUO {
				return uint64(x/y) & m
			}
			return uint64(x%y) & m
		}
		if op == token.QUO {
			return a / b
		}
		return a % b
	case token.AND:
		return a & b
	case token.OR:
		return a | b
	case token.XOR:
		return a ^ b
	case token.AND_NOT:
		return a &^ b
	case token.SHL, token.SHR:
		if in.sg2 && sx(b, in.w2) < 0 {
			w.panicRT(fr, "negative shift amount")
		}
		if op == token.SHL {
			if b >= 64 {
				return uint64(0)
			}
			return (a << b) & m
		}
		if in.sg {
			if b > 63 {
				b = 63
			}
			return uint64(sx(a, in.w)>>b) & m
		}
		if b >= 64 {
			return uint64(0)
		}
		return a >> b
	case token.EQL:
		return a == b
	case token.NEQ:
		return a != b
	}
	if in.sg {
		x, y := sx(a, in.w), sx(b, in.w)
		switch op {
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	}
	switch op {
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	panic(engineError("binInt " + op.String()))
}

func (w *Worker) binSym(fr *frame, in *instr, op token.Token, x, y Value) Value {
	c := w.c
	a := w.bv(x, in.w)
	if op == token.SHL || op == token.SHR {
		yb := w.bv(y, in.w2)
		if in.sg2 && w.branch(c.Lt(yb, c.BV(0, in.w2), true)) {
			w.panicRT(fr, "negative shift amount")
		}
		k := c.Resize(yb, 64, false)
		big := c.Not(c.Lt(k, c.BV(uint64(in.w), 64), false))
		sh := c.Resize(k, in.w, false)
		o := "bvshl"
		if op == token.SHR {
			o = "bvlshr"
			if in.sg {
				o = "bvashr"
			}
		}
		r := c.BinBV(o, a, sh)
		if big != c.False {
			over := c.BV(0, in.w)
			if o == "bvashr" {
				over = c.BinBV(o, a, c.BV(uint64(in.w-1), in.w))
			}
			r = c.Ite(big, over, r)
		}
		return w.unbv(r)
	}
	b := w.bv(y, in.w)
	switch op {
	case token.ADD:
		return w.unbv(c.BinBV("bvadd", a, b))
	case token.SUB:
		return w.unbv(c.BinBV("bvsub", a, b))
	case token.MUL:
		return w.unbv(c.BinBV("bvmul", a, b))
	case token.QUO, token.REM:
		if w.branch(c.Eq(b, c.BV(0, in.w))) {
			w.panicRT(fr, "integer divide by zero")
		}
		o := map[bool]string{true: "bvudiv", false: "bvurem"}[op == token.QUO]
		if in.sg {
			o = map[bool]string{true: "bvsdiv", false: "bvsrem"}[op == token.QUO]
		}
		return w.unbv(c.BinBV(o, a, b))
	case token.AND:
		return w.unbv(c.BinBV("bvand", a, b))
	case token.OR:
		return w.unbv(c.BinBV("bvor", a, b))
	case token.XOR:
		return w.unbv(c.BinBV("bvxor", a, b))
	case token.AND_NOT:
		return w.unbv(c.BinBV("bvand", a, c.BVNot(b)))
	case token.LSS:
		return w.unbool(c.Lt(a, b, in.sg))
	case token.GTR:
		return w.unbool(c.Lt(b, a, in.sg))
	case token.LEQ:
		return w.unbool(c.Not(c.Lt(b, a, in.sg)))
	case token.GEQ:
		return w.unbool(c.Not(c.Lt(a, b, in.sg)))
	}
	panic(engineError("binSym " + op.String()))
}

// equal gives the equality of two values as a Bool term.
func (w *Worker) equal(x, y Value, t types.Type) *T {
	c := w.c
	switch a := x.(type) {
	case nil:
		return c.Bool(isNil(y))
	case bool:
		return c.Eq(c.Bool(a), w.boolT(y))
	case uint64:
		if b, ok := y.(uint64); ok {
			return c.Bool(a == b)
		}
		b := y.(*T)
		return c.Eq(c.BV(a, b.w), b)
	case float64:
		return c.Bool(a == y.(float64))
	case *T:
		switch b := y.(type) {
		case *T:
			return c.Eq(a, b)
		case uint64:
			return c.Eq(a, c.BV(b, a.w))
		case bool:
			return c.Eq(a, c.Bool(b))
		}
	case string, *Str:
		return w.strEq(x, y)
	case *Value:
		b, ok := y.(*Value)
		if !ok {
			return c.Bool(a == nil && isNil(y))
		}
		return c.Bool(a == b)
	case *MapV:
		return c.Bool((a == nil) == isNil(y) && (a == nil || x == y))
	case *ChanV:
		return c.Bool(x == y)
	case Slice:
		if !isNil(y) && a != nil {
			panic(engineError("slice comparison"))
		}
		return c.Bool((a == nil) == isNil(y))
	case *BigBytes:
		return c.False
	case *Closure:
		return c.Bool((a == nil) == isNil(y))
	case *ssa.Function:
		return c.Bool(isNil(y) && a == nil)
	case Native:
		return c.False
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			return c.Bool(a.t == nil && isNil(y))
		}
		if a.t == nil || b.t == nil {
			return c.Bool(a.t == nil && b.t == nil)
		}
		if _, ok := a.t.(*opaqueType); ok {
			return c.Bool(a.t == b.t && a.v == b.v)
		}
		if _, ok := b.t.(*opaqueType); ok {
			return c.False
		}
		if !types.Identical(a.t, b.t) {
			return c.False
		}
		return w.equal(a.v, b.v, a.t)
	case Array:
		b := y.(Array)
		r := c.True
		for i := range a {
			r = c.And(r, w.equal(a[i], b[i], nil))
		}
		return r
	case Struct:
		b := y.(Struct)
		r := c.True
		for i := range a {
			r = c.And(r, w.equal(a[i], b[i], nil))
		}
		return r
	case *opaqueObj:
		return c.Bool(x == y)
	}
	panic(engineError(fmt.Sprintf("equal %T %T", x, y)))
}

func isNil(v Value) bool {
	switch x := v.(type) {
	case nil:
		return true
	case Slice:
		return x == nil
	case *Value:
		return x == nil
	case *MapV:
		return x == nil
	case *ChanV:
		return x == nil
	case *Closure:
		return x == nil
	case Iface:
		return x.t == nil
	case *ssa.Function:
		return x == nil
	}
	return false
}

func (w *Worker) convert(fr *frame, in *instr, to, from types.Type, v Value) Value {
	tb, tok := to.Underlying().(*types.Basic)
	fb, fok := from.Underlying().(*types.Basic)
	if tok && fok {
		switch {
		case in.isInt && tb.Info()&types.IsInteger != 0:
			switch x := v.(type) {
			case uint64:
				if in.sg {
					return uint64(sx(x, in.w)) & mask(in.w2)
				}
				return x & mask(in.w2)
			case *T:
				return w.unbv(w.c.Resize(x, in.w2, in.sg))
			}
		case in.isInt && tb.Info()&types.IsFloat != 0:
			x := w.concInt(v)
			if in.sg {
				return float64(sx(x, in.w))
			}
			return float64(x)
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			return v
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			return uint64(int64(v.(float64))) & mask(in.w2)
		case in.isInt && tb.Info()&types.IsString != 0:
			return w.runeToStr(v, in.w, in.sg)
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return v
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		if sl, ok := from.Underlying().(*types.Slice); ok {
			ew, _, _ := typeInt(sl.Elem())
			if bb, ok := v.(*BigBytes); ok {
				v = w.force(fr, bb)
			}
			s, _ := v.(Slice)
			if ew == 8 {
				p := make([]Piece, len(s))
				for i := range s {
					w.track(fr, &s[i], false)
					p[i] = Piece{b: s[i]}
				}
				return fromPieces(p)
			}
			var r Value = ""
			for i := range s {
				r = strConcat(r, w.runeToStr(s[i], 32, true))
			}
			return r
		}
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && fok && fb.Info()&types.IsString != 0 {
		ew, _, _ := typeInt(sl.Elem())
		if ew == 8 {
			if st, ok := v.(*Str); ok {
				if _, known := strLen(st); !known {
					return &BigBytes{text: st.p}
				}
			}
			s := w.bytesOf(fr, v)
			c := growCap(0, len(s), 1)
			if len(s) <= 32 {
				c = 32
			}
			r := make(Slice, len(s), c)
			copy(r, s)
			f := r[:c]
			for i := len(s); i < c; i++ {
				f[i] = uint64(0)
			}
			return r
		}
		var r Slice = Slice{}
		it := &strIter{s: v}
		for {
			n := it.next(w).(Tuple)
			if n[0] == false {
				return r
			}
			r = append(r, n[2])
		}
	}
	return v
}

func (w *Worker) runeToStr(v Value, wd int, sg bool) Value {
	switch x := v.(type) {
	case uint64:
		if sg {
			n := sx(x, wd)
			if n < 0 || n > 0x10ffff {
				return "\uFFFD"
			}
			return string(rune(n))
		}
		if x > 0x10ffff {
			return "\uFFFD"
		}
		return string(rune(x))
	case *T:
		c := w.c
		if p, ok := w.runes[x.id]; ok {
			return fromPieces(p)
		}
		t := c.Resize(x, 64, sg)
		if w.branch(c.Lt(t, c.BV(0x80, 64), false)) {
			return fromPieces([]Piece{{b: w.unbv(c.Resize(t, 8, false))}})
		}
		u := w.concretize(t)
		if u > 0x10ffff {
			return "\uFFFD"
		}
		return string(rune(u))
	}
	panic(engineError("runeToStr"))
}

// ---- iteration

type iterator interface{ next(w *Worker) Value }

type strIter struct {
	s   Value
	pos int
}

func (it *strIter) next(w *Worker) Value {
	switch s := it.s.(type) {
	case string:
		if it.pos >= len(s) {
			return Tuple{false, uint64(0), uint64(0)}
		}
		r, n := utf8.DecodeRuneInString(s[it.pos:])
		p := it.pos
		it.pos += n
		return Tuple{true, uint64(p), uint64(uint32(r))}
	case *Str:
		if it.pos >= len(s.p) {
			return Tuple{false, uint64(0), uint64(0)}
		}
		r, n := w.decodeRune(s.p[it.pos:])
		p := it.pos
		it.pos += n
		return Tuple{true, uint64(p), r}
	}
	panic(engineError("range over string"))
}

// decodeRune decodes the first rune of symbolic bytes.
func (w *Worker) decodeRune(p []Piece) (Value, int) {
	c := w.c
	conc := make([]byte, 0, 4)
	allConc := true
	for i := 0; i < len(p) && i < 4; i++ {
		if p[i].num != nil || p[i].opq > 0 {
			if i == 0 {
				panic(engineError("decoding symbolic number text"))
			}
			break
		}
		u, ok := p[i].b.(uint64)
		if !ok {
			allConc = false
			break
		}
		conc = append(conc, byte(u))
		if i == 0 && u < 0x80 {
			break
		}
	}
	if allConc {
		r, n := utf8.DecodeRune(conc)
		return uint64(uint32(r)), n
	}
	b0 := w.bv(p[0].b, 8)
	in := func(x *T, lo, hi uint64) bool {
		return w.branch(c.And(c.Not(c.Lt(x, c.BV(lo, 8), false)), c.Not(c.Lt(c.BV(hi, 8), x, false))))
	}
	bad := uint64(0xFFFD)
	z := func(x *T) *T { return c.Resize(x, 32, false) }
	if w.branch(c.Lt(b0, c.BV(0x80, 8), false)) {
		return w.unbv(z(b0)), 1
	}
	if !in(b0, 0xC2, 0xF4) {
		return bad, 1
	}
	at := func(i int) *T {
		if i >= len(p) {
			return nil
		}
		if p[i].num != nil || p[i].opq > 0 {
			return c.BV('0', 8) // not a continuation byte
		}
		return w.bv(p[i].b, 8)
	}
	and := func(x *T, m uint64) *T { return z(c.BinBV("bvand", x, c.BV(m, 8))) }
	sh := func(x *T, n uint64) *T { return c.BinBV("bvshl", x, c.BV(n, 32)) }
	or := func(x, y *T) *T { return c.BinBV("bvor", x, y) }
	b1 := at(1)
	if in(b0, 0xC2, 0xDF) {
		if b1 == nil || !in(b1, 0x80, 0xBF) {
			return bad, 1
		}
		return w.decoded(or(sh(and(b0, 0x1F), 6), and(b1, 0x3F)), 0x80, 0x7FF, p[:2]), 2
	}
	three := in(b0, 0xE0, 0xEF)
	lo, hi := uint64(0x80), uint64(0xBF)
	if three {
		if w.branch(c.Eq(b0, c.BV(0xE0, 8))) {
			lo = 0xA0
		} else if w.branch(c.Eq(b0, c.BV(0xED, 8))) {
			hi = 0x9F
		}
	} else {
		if w.branch(c.Eq(b0, c.BV(0xF0, 8))) {
			lo = 0x90
		} else if w.branch(c.Eq(b0, c.BV(0xF4, 8))) {
			hi = 0x8F
		}
	}
	if b1 == nil || !in(b1, lo, hi) {
		return bad, 1
	}
	b2 := at(2)
	if b2 == nil || !in(b2, 0x80, 0xBF) {
		return bad, 1
	}
	if three {
		return w.decoded(or(or(sh(and(b0, 0x0F), 12), sh(and(b1, 0x3F), 6)), and(b2, 0x3F)), 0x800, 0xFFFF, p[:3]), 3
	}
	b3 := at(3)
	if b3 == nil || !in(b3, 0x80, 0xBF) {
		return bad, 1
	}
	return w.decoded(or(or(sh(and(b0, 0x07), 18), sh(and(b1, 0x3F), 12)), or(sh(and(b2, 0x3F), 6), and(b3, 0x3F))), 0x10000, 0x10FFFF, p[:4]), 4
}

// decoded is a decoded rune with its range (which the path condition implies)
// and the bytes it comes from.
func (w *Worker) decoded(raw *T, lo, hi uint64, src []Piece) Value {
	c := w.c
	if raw.isConst() {
		return w.unbv(raw)
	}
	l, h := c.BV(lo, 32), c.BV(hi, 32)
	t := c.Ite(c.Lt(raw, l, false), l, c.Ite(c.Lt(h, raw, false), h, raw))
	if !t.isConst() {
		if c.rng == nil {
			c.rng = map[int32][2]uint64{}
		}
		c.rng[t.id] = [2]uint64{lo, hi}
		w.runes[t.id] = append([]Piece{}, src...)
	}
	return w.unbv(t)
}

type mapIter struct {
	m    *MapV
	pos  int
	rev  bool
	full bool
	done map[int]bool
}

func (w *Worker) mkRange(fr *frame, v Value) Value {
	switch x := v.(type) {
	case *MapV:
		it := &mapIter{m: x}
		if x != nil && w.sched.tracking() {
			w.sched.read(fr.g, x, w.posf(fr))
		}
		if x != nil && x.n > 1 && w.ex.lim.MapOrder > 0 && fr.code != nil && fr.code.inRepo {
			if w.ex.lim.MapOrder >= 2 {
				it.full = true
				it.done = map[int]bool{}
			} else {
				if w.ex.lim.MapDev == 0 || w.mapDev < w.ex.lim.MapDev {
					it.rev = w.choose(2) == 1
				}
				if it.rev {
					it.pos = len(x.keys) - 1
					w.mapDev++
				}
			}
		}
		return it
	case string, *Str:
		return &strIter{s: v}
	}
	panic(engineError(fmt.Sprintf("range over %T", v)))
}

func (it *mapIter) next(w *Worker) Value {
	m := it.m
	if m == nil {
		return Tuple{false, nil, nil}
	}
	if it.full {
		var cand []int
		for i := range m.keys {
			if !m.dead[i] && !it.done[i] {
				cand = append(cand, i)
			}
		}
		if len(cand) == 0 {
			return Tuple{false, nil, nil}
		}
		i := cand[w.choose(len(cand))]
		it.done[i] = true
		return Tuple{true, m.keys[i], copyVal(m.vals[i])}
	}
	for it.pos >= 0 && it.pos < len(m.keys) {
		i := it.pos
		if it.rev {
			it.pos--
		} else {
			it.pos++
		}
		if m.dead[i] {
			continue
		}
		return Tuple{true, m.keys[i], copyVal(m.vals[i])}
	}
	return Tuple{false, nil, nil}
}

// ---- maps

// mapKey gives a hashable canonical key for concrete keys.
func mapKey(v Value) (any, bool) {
	switch x := v.(type) {
	case uint64, string, bool, float64:
		return x, true
	case *T, *Str:
		return nil, false
	case *Value:
		return x, true
	case Iface:
		if x.t == nil {
			return nil, true
		}
		k, ok := mapKey(x.v)
		if !ok {
			return nil, false
		}
		return [2]any{x.t.String(), k}, true
	case Array:
		var sb strings.Builder
		for _, e := range x {
			k, ok := mapKey(e)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%v|", k)
		}
		return "a:" + sb.String(), true
	case Struct:
		var sb strings.Builder
		for _, e := range x {
			k, ok := mapKey(e)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%v|", k)
		}
		return "s:" + sb.String(), true
	}
	panic(engineError(fmt.Sprintf("map key %T", v)))
}

func (w *Worker) mapFind(m *MapV, k Value) int {
	key, conc := mapKey(k)
	if conc {
		if i, ok := m.idx[key]; ok && !m.dead[i] {
			return i
		}
		if !m.sym {
			return -1
		}
	}
	for i := range m.keys {
		if m.dead[i] {
			continue
		}
		if conc {
			if _, c2 := mapKey(m.keys[i]); c2 {
				continue
			}
		}
		if w.branch(w.equal(k, m.keys[i], nil)) {
			return i
		}
	}
	return -1
}

func (w *Worker) mapGet(m *MapV, k Value) (Value, bool) {
	if m == nil {
		return nil, false
	}
	if i := w.mapFind(m, k); i >= 0 {
		return m.vals[i], true
	}
	return nil, false
}

func (w *Worker) mapSet(m *MapV, k, v Value) {
	if i := w.mapFind(m, k); i >= 0 {
		m.vals[i] = v
		return
	}
	key, conc := mapKey(k)
	if conc {
		m.idx[key] = len(m.keys)
	} else {
		m.sym = true
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	m.dead = append(m.dead, false)
	m.n++
}

func (w *Worker) mapDel(m *MapV, k Value) {
	if i := w.mapFind(m, k); i >= 0 {
		m.dead[i] = true
		m.n--
		if key, conc := mapKey(k); conc {
			delete(m.idx, key)
		}
	}
}

// force turns the bytes of a symbolic integer into explicit bytes.
func (w *Worker) force(fr *frame, b *BigBytes) Slice {
	if b.forced != nil {
		return b.forced
	}
	if b.text != nil {
		panic(engineError("bytes of symbolic number text"))
	}
	c := w.c
	t := b.t
	if t.lo != nil && t.lo.Sign() < 0 {
		t = w.absT(t)
	}
	n := 0
	for {
		k := c.IntZero(t)
		if n > 0 {
			k = c.IntLt(t, c.Int(new(big.Int).Lsh(big.NewInt(1), uint(8*n))))
		}
		if w.branch(k) {
			break
		}
		n++
		if n > 80 {
			panic(engineError("bytes of an unbounded integer"))
		}
	}
	r := make(Slice, n)
	for i := 0; i < n; i++ {
		d := c.Div(t, new(big.Int).Lsh(big.NewInt(1), uint(8*(n-1-i))))
		e := c.Int2BV(c.Mod(d, big.NewInt(256)), 8)
		r[i] = w.unbv(e)
	}
	b.forced = r
	if b.forced == nil {
		b.forced = Slice{}
	}
	return b.forced
}

func (w *Worker) absT(t *T) *T {
	if t.lo != nil && t.lo.Sign() >= 0 {
		return t
	}
	if w.branch(w.c.IntNeg(t)) {
		return w.c.INeg(t)
	}
	return t
}

func litKey(p []Piece) string {
	var sb strings.Builder
	for _, x := range p {
		if u, ok := x.b.(uint64); ok && x.num == nil {
			sb.WriteByte(byte(u))
		} else {
			break
		}
	}
	return sb.String()
}
