package main

// Boolean combinations of conditions over single variables of at most 8 bits
// are decided by truth tables (256 bits per condition, computed once) and case
// splits; conditions that relate two variables go to z3.

type table8 [4]uint64

func (t table8) and(o table8) table8 {
	for i := range t {
		t[i] &= o[i]
	}
	return t
}
func (t table8) empty() bool { return t == table8{} }

// byteVar: the only variable of t, if it is small
func (c *Ctx) byteVar(t *T) *T {
	vs := c.Vars(t)
	if len(vs) != 1 {
		return nil
	}
	for id := range vs {
		if x := c.all[id]; x.op == OpVar && x.w >= 1 && x.w <= 8 {
			return x
		}
	}
	return nil
}

func (c *Ctx) byteTable(t *T, v *T) table8 {
	if r, ok := c.tab8[t.id]; ok {
		return r
	}
	var r table8
	for x := uint64(0); x < 1<<uint(v.w); x++ {
		m := newModel()
		m.bv[v.id] = x
		if c.evalBool(t, m, map[int32]any{}) {
			r[x>>6] |= 1 << (x & 63)
		}
	}
	if c.tab8 == nil {
		c.tab8 = map[int32]table8{}
	}
	c.tab8[t.id] = r
	return r
}

type byteState struct {
	v *T
	d table8
}

// byteForm: t is a boolean combination of small conditions
func (c *Ctx) byteForm(t *T) bool {
	if r, ok := c.form8[t.id]; ok {
		return r
	}
	r := false
	switch {
	case t.isConst() || c.byteVar(t) != nil:
		r = true
	case t.op == OpAnd || t.op == OpOr || t.op == OpNot:
		r = true
		for _, a := range t.args {
			r = r && c.byteForm(a)
		}
	case (t.op == OpEq || t.op == OpIte) && t.args[len(t.args)-1].w == 0:
		r = true
		for _, a := range t.args {
			r = r && a.w == 0 && c.byteForm(a)
		}
	}
	if c.form8 == nil {
		c.form8 = map[int32]bool{}
	}
	c.form8[t.id] = r
	return r
}

func (w *Worker) byteSolve(lits []*T) (Status, *Model, bool) {
	if len(lits) == 0 {
		return Unknown, nil, false
	}
	for _, l := range lits {
		if !w.c.byteForm(l) {
			return Unknown, nil, false
		}
	}
	w.st.ByteQueries++
	d := map[int32]byteState{}
	budget := 20000
	if r, ok := w.byteSplit(lits, d, &budget); ok {
		if r == nil {
			return Unsat, nil, true
		}
		m := newModel()
		for id, s := range r {
			// prefer letters and digits in models
			for k := uint64(0); k < 256; k++ {
				x := (k + 97) & 255
				if s.d[x>>6]>>(x&63)&1 == 1 {
					m.bv[id] = x
					break
				}
			}
		}
		return Sat, m, true
	}
	return Unknown, nil, false
}

// byteSplit: domains that satisfy the literals, nil if there are none
func (w *Worker) byteSplit(lits []*T, d map[int32]byteState, budget *int) (map[int32]byteState, bool) {
	c := w.c
	if *budget--; *budget < 0 {
		return nil, false
	}
	var rest []*T
	todo := append([]*T{}, lits...)
	for len(todo) > 0 {
		t := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		switch {
		case t == c.True:
			continue
		case t == c.False:
			return nil, true
		}
		if v := c.byteVar(t); v != nil {
			s, ok := d[v.id]
			if !ok {
				s = byteState{v, table8{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}}
			}
			s.d = s.d.and(c.byteTable(t, v))
			if s.d.empty() {
				return nil, true
			}
			d[v.id] = s
			continue
		}
		if t.op == OpAnd {
			todo = append(todo, t.args...)
			continue
		}
		if t.op == OpNot && t.args[0].op == OpOr {
			for _, a := range t.args[0].args {
				todo = append(todo, c.Not(a))
			}
			continue
		}
		rest = append(rest, t)
	}
	if len(rest) == 0 {
		return d, true
	}
	t := rest[0]
	rest = rest[1:]
	neg, x := false, t
	if t.op == OpNot {
		neg, x = true, t.args[0]
	}
	var cases [][]*T
	switch x.op {
	case OpAnd: // negated
		for i, a := range x.args {
			cs := []*T{c.Not(a)}
			cases = append(cases, append(cs, x.args[:i]...))
		}
	case OpOr:
		for i, a := range x.args {
			cs := []*T{a}
			for _, b := range x.args[:i] {
				cs = append(cs, c.Not(b))
			}
			cases = append(cases, cs)
		}
	case OpEq:
		a, b := x.args[0], x.args[1]
		if neg {
			b = c.Not(b)
		}
		cases = [][]*T{{a, b}, {c.Not(a), c.Not(b)}}
	case OpIte:
		a, b := x.args[1], x.args[2]
		if neg {
			a, b = c.Not(a), c.Not(b)
		}
		cases = [][]*T{{x.args[0], a}, {c.Not(x.args[0]), b}}
	default:
		return nil, false
	}
	for _, cs := range cases {
		d2 := make(map[int32]byteState, len(d))
		for k, v := range d {
			d2[k] = v
		}
		r, ok := w.byteSplit(append(append([]*T{}, rest...), cs...), d2, budget)
		if !ok {
			return nil, false
		}
		if r != nil {
			return r, true
		}
	}
	return nil, true
}
