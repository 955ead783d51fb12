package main

import (
	"math/big"
	"math/rand"
	"sort"
	"time"
)

// Decision procedure for conjunctions of polynomial equations and
// disequations over the prime field GF(q).
//
//   unsat  : 1 is in the ideal (Groebner basis with the Rabinowitsch trick), or
//            a disequation is reduced to zero. Exact for any q.
//   sat    : with a concrete model (checked by evaluation).
//   unknown: neither within the limits.

type Status int

const (
	Unknown Status = iota
	Sat
	Unsat
)

func (s Status) String() string { return [...]string{"unknown", "sat", "unsat"}[s] }

type ffStats struct {
	Queries, Unsat, Sat, Unknown int
	Time                         time.Duration
}

type ffSolver struct {
	q        *big.Int
	rng      *rand.Rand
	deadline time.Time
	aborted  bool
}

type ffSub struct {
	v int32
	p Poly
}

const ffMaxTerms = 60000

func (s *ffSolver) timeout() bool {
	if s.aborted {
		return true
	}
	if time.Now().After(s.deadline) {
		s.aborted = true
	}
	return s.aborted
}

func (s *ffSolver) monic(p Poly) Poly {
	if len(p) == 0 {
		return p
	}
	if p[0].c.IsInt64() && p[0].c.Int64() == 1 {
		return p
	}
	inv := new(big.Int).ModInverse(p[0].c, s.q)
	return polyScale(p, inv, s.q)
}

// squarefree part of a monomial equation etc.
func (s *ffSolver) simplifyEq(p Poly) Poly {
	p = s.monic(p)
	if len(p) == 1 && p[0].m.deg > 0 {
		n := Mono{v: p[0].m.v}
		n.e = make([]int32, len(n.v))
		for i := range n.e {
			n.e[i] = 1
			n.deg++
		}
		return Poly{{n, big.NewInt(1)}}
	}
	return p
}

// linearVar finds a variable that occurs exactly once in p, linearly and alone.
func linearVar(p Poly, occ map[int32]int) (int32, int, bool) {
	best, bi := int32(0), -1
	for i, t := range p {
		if t.m.deg != 1 {
			continue
		}
		v := t.m.v[0]
		ok := true
		for j, u := range p {
			if j != i && u.m.exp(v) > 0 {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		if bi < 0 || occ[v] < occ[best] || (occ[v] == occ[best] && v > best) {
			best, bi = v, i
		}
	}
	return best, bi, bi >= 0
}

type ffState struct {
	eqs, neqs []Poly
	subs      []ffSub
}

// propagate performs linear elimination. Returns Unsat or Unknown.
func (s *ffSolver) propagate(st *ffState) Status {
	for {
		if s.timeout() {
			return Unknown
		}
		// clean
		seen := map[string]bool{}
		var eqs []Poly
		for _, e := range st.eqs {
			if len(e) == 0 {
				continue
			}
			if k, ok := e.isConst(); ok && k.Sign() != 0 {
				return Unsat
			}
			e = s.simplifyEq(e)
			k := e.key()
			if !seen[k] {
				seen[k] = true
				eqs = append(eqs, e)
			}
		}
		st.eqs = eqs
		for _, e := range st.neqs {
			if len(e) == 0 {
				return Unsat
			}
		}
		// factors known nonzero: single-atom disequations
		nz := map[int32]bool{}
		for _, e := range st.neqs {
			if len(e) == 1 {
				for _, v := range e[0].m.v {
					nz[v] = true
				}
			}
		}
		changed := false
		for i, e := range st.eqs {
			// strip common nonzero atoms
			var common []int32
			for _, v := range e[0].m.v {
				if !nz[v] {
					continue
				}
				all := true
				for _, t := range e {
					if t.m.exp(v) == 0 {
						all = false
						break
					}
				}
				if all {
					common = append(common, v)
				}
			}
			if len(common) > 0 {
				var n Poly
				for _, t := range e {
					m := Mono{}
					for k, v := range t.m.v {
						ex := t.m.e[k]
						for _, cv := range common {
							if cv == v {
								ex--
							}
						}
						if ex > 0 {
							m.v = append(m.v, v)
							m.e = append(m.e, ex)
							m.deg += ex
						}
					}
					n = append(n, PTerm{m, t.c})
				}
				sortPoly(n)
				st.eqs[i] = n
				changed = true
			}
		}
		if changed {
			continue
		}
		occ := map[int32]int{}
		for _, l := range [][]Poly{st.eqs, st.neqs} {
			for _, e := range l {
				for _, t := range e {
					for _, v := range t.m.v {
						occ[v]++
					}
				}
			}
		}
		// choose best linear elimination
		bi, bv, bt := -1, int32(0), 0
		bestCost := 0
		for i, e := range st.eqs {
			v, t, ok := linearVar(e, occ)
			if !ok {
				continue
			}
			cost := (len(e) - 1) * occ[v]
			if bi < 0 || cost < bestCost {
				bi, bv, bt, bestCost = i, v, t, cost
			}
		}
		if bi < 0 {
			return Unknown
		}
		e := st.eqs[bi]
		c := new(big.Int).Neg(e[bt].c)
		c.ModInverse(c.Mod(c, s.q), s.q)
		rest := make(Poly, 0, len(e)-1)
		for i, t := range e {
			if i != bt {
				rest = append(rest, t)
			}
		}
		rest = polyScale(rest, c, s.q)
		st.eqs = append(append([]Poly{}, st.eqs[:bi]...), st.eqs[bi+1:]...)
		st.subs = append(st.subs, ffSub{bv, rest})
		total := 0
		for i := range st.eqs {
			st.eqs[i] = polySubst(st.eqs[i], bv, rest, s.q, nil)
			total += len(st.eqs[i])
		}
		for i := range st.neqs {
			st.neqs[i] = polySubst(st.neqs[i], bv, rest, s.q, nil)
			total += len(st.neqs[i])
		}
		if total > ffMaxTerms {
			s.aborted = true
			return Unknown
		}
	}
}

// normal form of p w.r.t. basis g (monic polys)
func (s *ffSolver) nf(p Poly, g []Poly) Poly {
	var r Poly
	p = append(Poly{}, p...)
	steps := 0
	for len(p) > 0 {
		steps++
		if steps&15 == 0 && s.timeout() {
			return append(r, p...)
		}
		red := false
		for _, b := range g {
			if len(b) == 0 {
				continue
			}
			if m, ok := divMono(p[0].m, b[0].m); ok {
				k := new(big.Int).Neg(p[0].c)
				mb := make(Poly, len(b))
				for i, t := range b {
					mb[i] = PTerm{mulMono(t.m, m, nil), t.c}
				}
				p = polyLin(p, nil, mb, k, s.q)
				red = true
				break
			}
		}
		if !red {
			r = append(r, p[0])
			p = p[1:]
		}
	}
	return r
}

// groebner computes a basis (limited). Returns basis and whether complete.
func (s *ffSolver) groebner(in []Poly) ([]Poly, bool) {
	type pair struct {
		i, j int
		l    Mono
	}
	var g []Poly
	var pairs []pair
	alive := []bool{}
	add := func(p Poly) bool {
		p = s.monic(p)
		if p[0].m.deg == 0 {
			g = []Poly{{{Mono{}, big.NewInt(1)}}}
			return true
		}
		n := len(g)
		for i := range g {
			if !alive[i] {
				continue
			}
			l := lcmMono(g[i][0].m, p[0].m)
			if l.deg == g[i][0].m.deg+p[0].m.deg {
				continue // coprime leading monomials
			}
			pairs = append(pairs, pair{i, n, l})
		}
		for i := range g {
			if alive[i] {
				if _, ok := divMono(g[i][0].m, p[0].m); ok {
					alive[i] = false // redundant as reducer; pairs kept
				}
			}
		}
		g = append(g, p)
		alive = append(alive, true)
		return false
	}
	cur := func() []Poly {
		var r []Poly
		for i := range g {
			if alive[i] {
				r = append(r, g[i])
			}
		}
		return r
	}
	in = append([]Poly{}, in...)
	sort.SliceStable(in, func(i, j int) bool { return cmpMono(in[i][0].m, in[j][0].m) < 0 })
	for _, p := range in {
		p = s.nf(p, cur())
		if len(p) == 0 {
			continue
		}
		if add(p) {
			return g, true
		}
	}
	for len(pairs) > 0 {
		if s.timeout() || len(g) > 400 {
			return cur(), false
		}
		bi := 0
		for i := range pairs {
			if cmpMono(pairs[i].l, pairs[bi].l) < 0 {
				bi = i
			}
		}
		pr := pairs[bi]
		pairs[bi] = pairs[len(pairs)-1]
		pairs = pairs[:len(pairs)-1]
		a, b := g[pr.i], g[pr.j]
		ma, _ := divMono(pr.l, a[0].m)
		mb, _ := divMono(pr.l, b[0].m)
		pa := make(Poly, len(a))
		for i, t := range a {
			pa[i] = PTerm{mulMono(t.m, ma, nil), t.c}
		}
		pb := make(Poly, len(b))
		for i, t := range b {
			pb[i] = PTerm{mulMono(t.m, mb, nil), t.c}
		}
		sp := s.nf(polySub(pa, pb, s.q), cur())
		if s.aborted {
			return cur(), false
		}
		if len(sp) == 0 {
			continue
		}
		if len(sp) > 5000 {
			s.aborted = true
			return cur(), false
		}
		if add(sp) {
			return g, true
		}
	}
	return cur(), true
}

func isOne(g []Poly) bool { return len(g) == 1 && len(g[0]) == 1 && g[0][0].m.deg == 0 }

// solve decides the system. wantModel: produce a model when sat.
func ffSolve(q *big.Int, eqs, neqs []Poly, limit time.Duration, seed int64) (Status, map[int32]*big.Int) {
	s := &ffSolver{q: q, rng: rand.New(rand.NewSource(seed)), deadline: time.Now().Add(limit)}
	vars := map[int32]bool{}
	for _, l := range [][]Poly{eqs, neqs} {
		for _, p := range l {
			p.vars(vars)
		}
	}
	st := &ffState{eqs: append([]Poly{}, eqs...), neqs: append([]Poly{}, neqs...)}
	if s.propagate(st) == Unsat {
		return Unsat, nil
	}
	if s.aborted {
		return Unknown, nil
	}
	// cheap model attempt first (most queries are satisfiable)
	try := func(n int) (Status, map[int32]*big.Int) {
		for k := 0; k < n && !s.timeout(); k++ {
			c := &ffState{eqs: append([]Poly{}, st.eqs...), neqs: append([]Poly{}, st.neqs...), subs: append([]ffSub{}, st.subs...)}
			if m := s.search(c, vars, k); m != nil {
				for _, p := range eqs {
					if polyEval(p, func(v int32) *big.Int { return m[v] }, q).Sign() != 0 {
						return Unknown, nil
					}
				}
				for _, p := range neqs {
					if polyEval(p, func(v int32) *big.Int { return m[v] }, q).Sign() == 0 {
						return Unknown, nil
					}
				}
				return Sat, m
			}
		}
		return Unknown, nil
	}
	if r, m := try(2); r == Sat {
		return r, m
	}
	if len(st.eqs) > 0 {
		g, complete := s.groebner(st.eqs)
		if isOne(g) {
			return Unsat, nil
		}
		for _, n := range st.neqs {
			if len(s.nf(n, g)) == 0 && !s.aborted {
				return Unsat, nil
			}
		}
		if complete && len(st.neqs) > 0 {
			// Rabinowitsch with one fresh variable per disequation
			nv := int32(1 << 28)
			in := append([]Poly{}, g...)
			for _, n := range st.neqs {
				nv++
				in = append(in, polySub(polyMul(n, polyVar(nv), q, nil), polyConst(big.NewInt(1)), q))
			}
			g2, _ := s.groebner(in)
			if isOne(g2) {
				return Unsat, nil
			}
		}
		if complete {
			st.eqs = g
		}
	}
	s.deadline = time.Now().Add(limit)
	s.aborted = false
	tries := 12
	if q.BitLen() < 8 {
		tries = 40
	}
	return try(tries)
}

// search tries to complete the state to a model by assigning variables.
func (s *ffSolver) search(st *ffState, vars map[int32]bool, attempt int) map[int32]*big.Int {
	assign := map[int32]*big.Int{}
	set := func(v int32, x *big.Int) {
		assign[v] = x
		c := polyConst(x)
		for i := range st.eqs {
			st.eqs[i] = polySubst(st.eqs[i], v, c, s.q, nil)
		}
		for i := range st.neqs {
			st.neqs[i] = polySubst(st.neqs[i], v, c, s.q, nil)
		}
	}
	randVal := func() *big.Int {
		switch {
		case attempt == 0 && s.rng.Intn(3) > 0:
			return new(big.Int).Mod(big.NewInt(int64(2+s.rng.Intn(9))), s.q)
		case s.rng.Intn(6) == 0:
			return new(big.Int).Mod(big.NewInt(int64(s.rng.Intn(3))), s.q)
		}
		return new(big.Int).Rand(s.rng, s.q)
	}
	for steps := 0; ; steps++ {
		if s.timeout() {
			return nil
		}
		if s.propagate(st) == Unsat || s.aborted {
			return nil
		}
		// univariate equation?
		uv := map[int32]bool{}
		done := false
		for _, e := range st.eqs {
			for k := range uv {
				delete(uv, k)
			}
			e.vars(uv)
			if len(uv) == 1 {
				var v int32
				for k := range uv {
					v = k
				}
				roots := s.roots(e, v)
				var good []*big.Int
				for _, r := range roots {
					ok := true
					for _, n := range st.neqs {
						if len(polySubst(n, v, polyConst(r), s.q, nil)) == 0 {
							ok = false
						}
					}
					if ok {
						good = append(good, r)
					}
				}
				if len(good) == 0 {
					return nil
				}
				set(v, good[s.rng.Intn(len(good))])
				done = true
				break
			}
		}
		if done {
			continue
		}
		if len(st.eqs) > 0 {
			// assign a variable of the shortest equation; prefer one whose
			// assignment leaves another linear
			bi := 0
			for i, e := range st.eqs {
				if len(e) < len(st.eqs[bi]) {
					bi = i
				}
			}
			e := st.eqs[bi]
			vs := map[int32]bool{}
			e.vars(vs)
			ids := sortedIDs(vs)
			// monomial equation: set one factor zero
			if len(e) == 1 {
				set(ids[s.rng.Intn(len(ids))], new(big.Int))
				continue
			}
			// prefer keeping a variable that has degree 1 in every term
			keep := int32(-1)
			off := s.rng.Intn(len(ids))
			for k := range ids {
				v := ids[(k+off)%len(ids)]
				ok := true
				for _, t := range e {
					if t.m.exp(v) > 1 {
						ok = false
						break
					}
				}
				if ok {
					keep = v
					break
				}
			}
			cand := ids[:0:0]
			for _, v := range ids {
				if v != keep {
					cand = append(cand, v)
				}
			}
			set(cand[s.rng.Intn(len(cand))], randVal())
			continue
		}
		// only disequations left
		vs := map[int32]bool{}
		for _, n := range st.neqs {
			n.vars(vs)
		}
		if len(vs) == 0 {
			break
		}
		ids := sortedIDs(vs)
		v := ids[0]
		okv := false
		for k := 0; k < 20 && !okv; k++ {
			x := randVal()
			okv = true
			for _, n := range st.neqs {
				if len(polySubst(n, v, polyConst(x), s.q, nil)) == 0 {
					okv = false
					break
				}
			}
			if okv {
				set(v, x)
			}
		}
		if !okv {
			return nil
		}
	}
	// remaining free variables
	subbed := map[int32]bool{}
	for _, u := range st.subs {
		subbed[u.v] = true
	}
	for _, v := range sortedIDs(vars) {
		if _, ok := assign[v]; !ok && !subbed[v] {
			assign[v] = randVal()
		}
	}
	for i := len(st.subs) - 1; i >= 0; i-- {
		u := st.subs[i]
		assign[u.v] = polyEval(u.p, func(v int32) *big.Int {
			if x, ok := assign[v]; ok {
				return x
			}
			x := randVal()
			assign[v] = x
			return x
		}, s.q)
	}
	return assign
}

// ---- univariate root finding over GF(q)

type upoly []*big.Int // low to high

func (s *ffSolver) toU(p Poly, v int32) upoly {
	d := int32(0)
	for _, t := range p {
		if e := t.m.exp(v); e > d {
			d = e
		}
	}
	u := make(upoly, d+1)
	for i := range u {
		u[i] = new(big.Int)
	}
	for _, t := range p {
		u[t.m.exp(v)].Add(u[t.m.exp(v)], t.c)
	}
	return s.utrim(u)
}
func (s *ffSolver) utrim(u upoly) upoly {
	for i := range u {
		u[i].Mod(u[i], s.q)
	}
	for len(u) > 0 && u[len(u)-1].Sign() == 0 {
		u = u[:len(u)-1]
	}
	return u
}
func (s *ffSolver) umod(a, b upoly) upoly {
	a = append(upoly{}, a...)
	for i := range a {
		a[i] = new(big.Int).Set(a[i])
	}
	inv := new(big.Int).ModInverse(b[len(b)-1], s.q)
	for len(a) >= len(b) {
		k := new(big.Int).Mul(a[len(a)-1], inv)
		k.Mod(k, s.q)
		o := len(a) - len(b)
		for i := range b {
			a[o+i].Sub(a[o+i], new(big.Int).Mul(k, b[i]))
		}
		a = s.utrim(a)
	}
	return a
}
func (s *ffSolver) udiv(a, b upoly) upoly {
	a = append(upoly{}, a...)
	for i := range a {
		a[i] = new(big.Int).Set(a[i])
	}
	inv := new(big.Int).ModInverse(b[len(b)-1], s.q)
	if len(a) < len(b) {
		return upoly{}
	}
	r := make(upoly, len(a)-len(b)+1)
	for i := range r {
		r[i] = new(big.Int)
	}
	for len(a) >= len(b) {
		k := new(big.Int).Mul(a[len(a)-1], inv)
		k.Mod(k, s.q)
		o := len(a) - len(b)
		r[o].Set(k)
		for i := range b {
			a[o+i].Sub(a[o+i], new(big.Int).Mul(k, b[i]))
		}
		a = s.utrim(a)
	}
	return s.utrim(r)
}
func (s *ffSolver) umul(a, b upoly) upoly {
	if len(a) == 0 || len(b) == 0 {
		return nil
	}
	r := make(upoly, len(a)+len(b)-1)
	for i := range r {
		r[i] = new(big.Int)
	}
	for i := range a {
		for j := range b {
			r[i+j].Add(r[i+j], new(big.Int).Mul(a[i], b[j]))
		}
	}
	return s.utrim(r)
}
func (s *ffSolver) ugcd(a, b upoly) upoly {
	for len(b) > 0 {
		a, b = b, s.umod(a, b)
	}
	return a
}
func (s *ffSolver) upow(base upoly, e *big.Int, m upoly) upoly {
	r := upoly{big.NewInt(1)}
	r = s.umod(r, m)
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = s.umod(s.umul(r, r), m)
		if e.Bit(i) == 1 {
			r = s.umod(s.umul(r, base), m)
		}
	}
	return r
}
func (s *ffSolver) roots(p Poly, v int32) []*big.Int {
	u := s.toU(p, v)
	if len(u) <= 1 {
		return nil
	}
	if s.q.BitLen() < 12 {
		var r []*big.Int
		for x := int64(0); x < s.q.Int64(); x++ {
			acc := new(big.Int)
			for i := len(u) - 1; i >= 0; i-- {
				acc.Mul(acc, big.NewInt(x))
				acc.Add(acc, u[i])
				acc.Mod(acc, s.q)
			}
			if acc.Sign() == 0 {
				r = append(r, big.NewInt(x))
			}
		}
		return r
	}
	if len(u) == 2 {
		inv := new(big.Int).ModInverse(u[1], s.q)
		x := new(big.Int).Neg(u[0])
		x.Mul(x, inv)
		return []*big.Int{x.Mod(x, s.q)}
	}
	// split off linear factors: gcd(x^q - x, u)
	xq := s.upow(upoly{new(big.Int), big.NewInt(1)}, s.q, u)
	for len(xq) < 2 {
		xq = append(xq, new(big.Int))
	}
	xq[1] = new(big.Int).Sub(xq[1], big.NewInt(1))
	g := s.ugcd(u, s.utrim(xq))
	return s.edf(g, 0)
}
func (s *ffSolver) edf(g upoly, depth int) []*big.Int {
	if len(g) <= 1 || depth > 60 {
		return nil
	}
	if len(g) == 2 {
		inv := new(big.Int).ModInverse(g[1], s.q)
		x := new(big.Int).Neg(g[0])
		x.Mul(x, inv)
		return []*big.Int{x.Mod(x, s.q)}
	}
	if s.timeout() {
		return nil
	}
	e := new(big.Int).Rsh(s.q, 1)
	a := new(big.Int).Rand(s.rng, s.q)
	h := s.upow(upoly{a, big.NewInt(1)}, e, g)
	if len(h) == 0 {
		h = upoly{new(big.Int)}
	}
	h[0] = new(big.Int).Sub(h[0], big.NewInt(1))
	d := s.ugcd(g, s.utrim(h))
	if len(d) <= 1 || len(d) == len(g) {
		return s.edf(g, depth+1)
	}
	return append(s.edf(d, depth+1), s.edf(s.udiv(g, d), depth+1)...)
}
