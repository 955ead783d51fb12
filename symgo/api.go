package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Harness API as seen by the engine.

func (w *Worker) input(name, kind string, mk func(n string) *T) Value {
	n := w.counts[name]
	w.counts[name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	t := mk(name)
	w.inputs = append(w.inputs, Input{name, kind, t})
	if kind == "big" {
		return t
	}
	return t
}

// bigInput wraps an input in a big.Int cell.
func asT(v Value) *T { return v.(*T) }

var symAPI map[string]intrinsic

func (w *Worker) goStr(v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(engineError("symbolic name"))
	}
	return s
}

func init() {
	symAPI = map[string]intrinsic{
		"symBig": func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			q := w.big(fr, a[1])
			t := w.input(w.goStr(a[0]), "big", func(n string) *T {
				return w.c.IntVar(n, new(big.Int), new(big.Int).Sub(q.b, big.NewInt(1)), q.b)
			})
			return w.newBig(asT(t))
		},
		"symBigRange": func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			lo, hi := w.big(fr, a[1]), w.big(fr, a[2])
			t := w.input(w.goStr(a[0]), "big", func(n string) *T { return w.c.IntVar(n, lo.b, hi.b, nil) })
			return w.newBig(asT(t))
		},
		// any integer; field predicates are decided modulo q
		"symBigInt": func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			t := w.input(w.goStr(a[0]), "big", func(n string) *T { return w.c.IntVar(n, nil, nil, nil) })
			return w.newBig(asT(t))
		},
		"symU64": func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			return w.input(w.goStr(a[0]), "u", func(n string) *T { return w.c.Var(n, 64) })
		},
		"symByte": func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			return w.input(w.goStr(a[0]), "u", func(n string) *T { return w.c.Var(n, 8) })
		},
		"symBool": func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			return w.input(w.goStr(a[0]), "bool", func(n string) *T { return w.c.Var(n, 0) })
		},
		"symInt": func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			t := w.input(w.goStr(a[0]), "u", func(n string) *T { return w.c.Var(n, 64) })
			x := asT(t)
			lo, hi := w.bv(a[1], 64), w.bv(a[2], 64)
			w.assume(w.c.Not(w.c.Lt(x, lo, true)))
			w.assume(w.c.Not(w.c.Lt(hi, x, true)))
			return x
		},
		"symChoose": func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			n := int(w.concInt(a[1]))
			k := w.choose(n)
			w.input(w.goStr(a[0]), "u", func(string) *T { return w.c.BV(uint64(k), 64) })
			return uint64(k)
		},
		"symConcInt": func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			return w.concInt(a[0])
		},
		"symParam": func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			n := w.goStr(a[0])
			if v, ok := w.ex.params[n]; ok {
				return uint64(v)
			}
			return a[1]
		},
		"symAssume": func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			t := w.boolT(a[0])
			if t == w.c.True {
				return nil
			}
			if t == w.c.False {
				panic(pathAbort{"assume", ""})
			}
			if w.replaying() {
				w.assume(t)
				return nil
			}
			if s, _ := w.check(t, false); s == Unsat {
				panic(pathAbort{"assume", ""})
			}
			w.assume(t)
			return nil
		},
		"symAssert": func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			w.assert(w.boolT(a[0]), w.goStr(a[1]), w.where(fr))
			return nil
		},
		"symObserve": func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			w.obs = append(w.obs, Observation{w.goStr(a[0]), w.snapshot(a[1])})
			return nil
		},
		"symReach": func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			w.st.Reach[w.goStr(a[0])]++
			return nil
		},
		// symBind makes the decimal literal lit mean the (symbolic) value v
		// when it is parsed by the code under test.
		"symBind": func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			w.binds[w.goStr(a[0])] = w.big(fr, a[1])
			return nil
		},
		// symGoroutines lets all other goroutines run and returns how many
		// are still alive.
		"symGoroutines": func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			return uint64(w.sched.quiesce(fr.g))
		},
		"symNative": func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value { return false },
		"symStop": func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			panic(pathAbort{"assume", ""})
		},
	}
}

// snapshot copies the observed value (deep for big.Ints behind pointers).
func (w *Worker) snapshot(v Value) Value {
	switch x := v.(type) {
	case Iface:
		return w.snapshot(x.v)
	case *Value:
		if x == nil {
			return nil
		}
		c := new(Value)
		*c = w.snapshot(*x)
		return c
	case Slice:
		if x == nil {
			return x
		}
		r := make(Slice, len(x))
		for i := range x {
			r[i] = w.snapshot(x[i])
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i := range x {
			r[i] = w.snapshot(x[i])
		}
		return r
	case Struct:
		return x
	}
	return v
}

// ---- fmt

func (w *Worker) sprintf(fr *frame, f Value, args Value) Value {
	fs, ok := f.(string)
	if !ok {
		w.opq++
		return &Str{p: []Piece{{opq: w.opq}}}
	}
	as, _ := args.(Slice)
	var r Value = ""
	ai := 0
	for i := 0; i < len(fs); {
		c := fs[i]
		if c != '%' {
			j := strings.IndexByte(fs[i:], '%')
			if j < 0 {
				j = len(fs) - i
			}
			r = strConcat(r, fs[i:i+j])
			i += j
			continue
		}
		i++
		flags := ""
		for i < len(fs) && strings.IndexByte("+-# 0123456789.", fs[i]) >= 0 {
			flags += string(fs[i])
			i++
		}
		if i >= len(fs) {
			r = strConcat(r, "%!(NOVERB)")
			break
		}
		v := fs[i]
		i++
		if v == '%' {
			r = strConcat(r, "%")
			continue
		}
		if ai >= len(as) {
			r = strConcat(r, "%!"+string(v)+"(MISSING)")
			continue
		}
		a := as[ai]
		ai++
		s := w.format(fr, a, v, strings.Contains(flags, "+"), 0)
		if cs, ok := s.(string); ok && flags != "" && strings.Trim(flags, "+#") != "" {
			// width on concrete text
			switch v {
			case 'v', 's', 'd', 'x':
				if u, ok := a.(Iface).v.(uint64); ok && v != 's' {
					wd, sg, _ := typeInt(a.(Iface).t)
					if sg {
						s = fmt.Sprintf("%"+flags+string(v), sx(u, wd))
					} else {
						s = fmt.Sprintf("%"+flags+string(v), u)
					}
				} else {
					s = fmt.Sprintf("%"+flags+"s", cs)
				}
			}
		}
		r = strConcat(r, s)
	}
	if ai < len(as) {
		r = strConcat(r, "%!(EXTRA)")
	}
	return r
}

func (w *Worker) format(fr *frame, v Value, verb byte, plus bool, depth int) Value {
	iv, ok := v.(Iface)
	if !ok {
		return "?"
	}
	if iv.t == nil {
		return "<nil>"
	}
	if verb == 'T' {
		return iv.t.String()
	}
	if o, ok := iv.t.(*opaqueType); ok {
		if f := o.methods["Error"]; f != nil {
			return f(fr, []Value{iv.v})
		}
		return o.name
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'd' {
		if p, ok := iv.v.(*Value); ok && namedPathPtr(iv.t) == "math/big.Int" {
			if p == nil {
				return "<nil>"
			}
			return w.numStr(w.big(fr, p))
		}
		if verb != 'd' {
			ms := w.prog.prog.MethodSets.MethodSet(iv.t)
			for _, n := range []string{"Error", "String"} {
				for i := 0; i < ms.Len(); i++ {
					m := ms.At(i)
					if m.Obj().Name() != n {
						continue
					}
					sig := m.Type().(*types.Signature)
					if sig.Params().Len() != 0 || sig.Results().Len() != 1 || !types.Identical(sig.Results().At(0).Type(), types.Typ[types.String]) {
						continue
					}
					if p, ok := iv.v.(*Value); ok && p == nil {
						return "<nil>"
					}
					return w.call(fr.g, fr, w.prog.prog.MethodValue(m), []Value{iv.v}, 0)
				}
			}
		}
	}
	return w.formatRaw(fr, iv.t, iv.v, verb, plus, depth)
}

func namedPathPtr(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		return namedPath(p.Elem())
	}
	return ""
}

func (w *Worker) formatRaw(fr *frame, t types.Type, v Value, verb byte, plus bool, depth int) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case string, *Str:
			if verb == 'q' {
				if s, ok := x.(string); ok {
					return strconv.Quote(s)
				}
				return strConcat(strConcat("\"", x), "\"")
			}
			if verb == 'x' {
				if s, ok := x.(string); ok {
					return fmt.Sprintf("%x", s)
				}
			}
			return x
		case bool:
			return fmt.Sprint(x)
		case float64:
			return fmt.Sprint(x)
		case uint64:
			wd, sg, _ := intWidth(u)
			if sg {
				return fmt.Sprintf("%"+string(fixVerb(verb)), sx(x, wd))
			}
			return fmt.Sprintf("%"+string(fixVerb(verb)), x)
		case *T:
			if x.w > 0 && (verb == 'v' || verb == 'd') {
				_, sg, _ := intWidth(u)
				return w.numStr(w.c.BV2Int(x, sg))
			}
			if x.w == 0 {
				if w.branch(x) {
					return "true"
				}
				return "false"
			}
			if verb == 'q' || verb == 'c' {
				return w.runeToStr(x, x.w, true)
			}
		}
	case *types.Slice:
		if depth < 6 {
			switch s := v.(type) {
			case Slice:
				if verb == 's' || verb == 'x' {
					if wd, _, ok := typeInt(u.Elem()); ok && wd == 8 {
						break
					}
				}
				var r Value = "["
				for i, e := range s {
					if i > 0 {
						r = strConcat(r, " ")
					}
					r = strConcat(r, w.formatElem(fr, u.Elem(), e, verb, plus, depth))
				}
				return strConcat(r, "]")
			}
		}
	case *types.Array:
		var r Value = "["
		for i, e := range v.(Array) {
			if i > 0 {
				r = strConcat(r, " ")
			}
			r = strConcat(r, w.formatElem(fr, u.Elem(), e, verb, plus, depth))
		}
		return strConcat(r, "]")
	case *types.Struct:
		if s, ok := v.(Struct); ok && depth < 6 {
			var r Value = "{"
			for i, e := range s {
				if i > 0 {
					r = strConcat(r, " ")
				}
				if plus {
					r = strConcat(r, u.Field(i).Name()+":")
				}
				r = strConcat(r, w.formatElem(fr, u.Field(i).Type(), e, verb, plus, depth))
			}
			return strConcat(r, "}")
		}
	case *types.Pointer:
		if p, ok := v.(*Value); ok {
			if p == nil {
				return "<nil>"
			}
			if _, ok := u.Elem().Underlying().(*types.Struct); ok && depth == 0 {
				return strConcat("&", w.formatRaw(fr, u.Elem(), *p, verb, plus, depth+1))
			}
		}
	}
	w.opq++
	return &Str{p: []Piece{{opq: w.opq}}}
}

func (w *Worker) formatElem(fr *frame, t types.Type, v Value, verb byte, plus bool, depth int) Value {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return w.format(fr, v, verb, plus, depth+1)
	}
	return w.format(fr, Iface{t, v}, verb, plus, depth+1)
}

func fixVerb(v byte) byte {
	switch v {
	case 'v', 's':
		return 'v'
	}
	return v
}
