package main

import (
	"encoding/binary"
	"math/big"
	"sort"
)

// Polynomials over Z in atoms (identified by term id). A polynomial is a slice
// of terms sorted by descending monomial order (graded reverse lexicographic
// on atom ids); coefficients are non-zero.

type Mono struct {
	v   []int32 // atom ids ascending
	e   []int32 // exponents
	deg int32
}

type PTerm struct {
	m Mono
	c *big.Int
}

type Poly []PTerm

func (m Mono) key() string {
	b := make([]byte, 0, 6*len(m.v))
	for i := range m.v {
		b = binary.AppendUvarint(b, uint64(m.v[i]))
		b = binary.AppendUvarint(b, uint64(m.e[i]))
	}
	return string(b)
}

// cmpMono: grevlex-like. returns >0 if a>b. Higher atom ids are "larger"
// variables (they are usually defined in terms of earlier ones).
func cmpMono(a, b Mono) int {
	if a.deg != b.deg {
		if a.deg > b.deg {
			return 1
		}
		return -1
	}
	// grevlex with variable order: larger id = larger variable. Compare from the
	// smallest variable: the monomial with the smaller exponent there is larger.
	i, j := 0, 0
	for i < len(a.v) && j < len(b.v) {
		if a.v[i] == b.v[j] {
			if a.e[i] != b.e[j] {
				if a.e[i] < b.e[j] {
					return 1
				}
				return -1
			}
			i++
			j++
			continue
		}
		if a.v[i] < b.v[j] {
			// a has smallest var with positive exponent, b has 0
			return -1
		}
		return 1
	}
	if i < len(a.v) {
		return -1
	}
	if j < len(b.v) {
		return 1
	}
	return 0
}

func (m Mono) exp(v int32) int32 {
	for i, x := range m.v {
		if x == v {
			return m.e[i]
		}
	}
	return 0
}

// mulMono multiplies monomials; cancel(v) gives the id of the inverse atom (or
// 0): v*inv(v) = 1.
func mulMono(a, b Mono, inv map[int32]int32) Mono {
	if len(a.v) == 0 {
		return b
	}
	if len(b.v) == 0 {
		return a
	}
	r := Mono{v: make([]int32, 0, len(a.v)+len(b.v)), e: make([]int32, 0, len(a.v)+len(b.v))}
	i, j := 0, 0
	for i < len(a.v) || j < len(b.v) {
		switch {
		case j >= len(b.v) || (i < len(a.v) && a.v[i] < b.v[j]):
			r.v = append(r.v, a.v[i])
			r.e = append(r.e, a.e[i])
			i++
		case i >= len(a.v) || b.v[j] < a.v[i]:
			r.v = append(r.v, b.v[j])
			r.e = append(r.e, b.e[j])
			j++
		default:
			r.v = append(r.v, a.v[i])
			r.e = append(r.e, a.e[i]+b.e[j])
			i++
			j++
		}
	}
	if len(inv) > 0 {
		hit := false
		for k, v := range r.v {
			w, ok := inv[v]
			if !ok || r.e[k] == 0 {
				continue
			}
			for l, x := range r.v {
				if x == w && r.e[l] > 0 {
					m := r.e[k]
					if r.e[l] < m {
						m = r.e[l]
					}
					r.e[k] -= m
					r.e[l] -= m
					hit = true
				}
			}
		}
		if hit {
			n := Mono{}
			for k := range r.v {
				if r.e[k] > 0 {
					n.v = append(n.v, r.v[k])
					n.e = append(n.e, r.e[k])
				}
			}
			r = n
		}
	}
	for _, e := range r.e {
		r.deg += e
	}
	return r
}

// divMono returns a/b if b divides a.
func divMono(a, b Mono) (Mono, bool) {
	if b.deg > a.deg {
		return Mono{}, false
	}
	r := Mono{}
	j := 0
	for i := range a.v {
		e := a.e[i]
		if j < len(b.v) && b.v[j] == a.v[i] {
			e -= b.e[j]
			j++
			if e < 0 {
				return Mono{}, false
			}
		} else if j < len(b.v) && b.v[j] < a.v[i] {
			return Mono{}, false
		}
		if e > 0 {
			r.v = append(r.v, a.v[i])
			r.e = append(r.e, e)
			r.deg += e
		}
	}
	if j < len(b.v) {
		return Mono{}, false
	}
	return r, true
}

func lcmMono(a, b Mono) Mono {
	r := Mono{}
	i, j := 0, 0
	for i < len(a.v) || j < len(b.v) {
		var v, e int32
		switch {
		case j >= len(b.v) || (i < len(a.v) && a.v[i] < b.v[j]):
			v, e = a.v[i], a.e[i]
			i++
		case i >= len(a.v) || b.v[j] < a.v[i]:
			v, e = b.v[j], b.e[j]
			j++
		default:
			v, e = a.v[i], a.e[i]
			if b.e[j] > e {
				e = b.e[j]
			}
			i++
			j++
		}
		r.v = append(r.v, v)
		r.e = append(r.e, e)
		r.deg += e
	}
	return r
}

func polyConst(c *big.Int) Poly {
	if c.Sign() == 0 {
		return nil
	}
	return Poly{{Mono{}, c}}
}

func polyVar(id int32) Poly {
	return Poly{{Mono{v: []int32{id}, e: []int32{1}, deg: 1}, big.NewInt(1)}}
}

func (p Poly) isConst() (*big.Int, bool) {
	if len(p) == 0 {
		return new(big.Int), true
	}
	if len(p) == 1 && p[0].m.deg == 0 {
		return p[0].c, true
	}
	return nil, false
}

func (p Poly) constTerm() *big.Int {
	if n := len(p); n > 0 && p[n-1].m.deg == 0 {
		return p[n-1].c
	}
	return new(big.Int)
}

// modulus q may be nil (integers).
func redc(c *big.Int, q *big.Int) *big.Int {
	if q == nil {
		return c
	}
	if c.Sign() >= 0 && c.Cmp(q) < 0 {
		return c
	}
	return c.Mod(c, q)
}

func polyAdd(a, b Poly, q *big.Int) Poly { return polyLin(a, nil, b, nil, q) }

// polyLin = ca*a + cb*b (nil coefficient = 1)
func polyLin(a Poly, ca *big.Int, b Poly, cb *big.Int, q *big.Int) Poly {
	r := make(Poly, 0, len(a)+len(b))
	mul := func(c, k *big.Int) *big.Int {
		if k == nil {
			return c
		}
		return redc(new(big.Int).Mul(c, k), q)
	}
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		var k int
		switch {
		case i >= len(a):
			k = -1
		case j >= len(b):
			k = 1
		default:
			k = cmpMono(a[i].m, b[j].m)
		}
		switch {
		case k > 0:
			if c := mul(a[i].c, ca); c.Sign() != 0 {
				r = append(r, PTerm{a[i].m, c})
			}
			i++
		case k < 0:
			if c := mul(b[j].c, cb); c.Sign() != 0 {
				r = append(r, PTerm{b[j].m, c})
			}
			j++
		default:
			c := redc(new(big.Int).Add(mul(a[i].c, ca), mul(b[j].c, cb)), q)
			if c.Sign() != 0 {
				r = append(r, PTerm{a[i].m, c})
			}
			i++
			j++
		}
	}
	return r
}

func polyScale(a Poly, c *big.Int, q *big.Int) Poly {
	return polyLin(a, c, nil, nil, q)
}

func polyNeg(a Poly, q *big.Int) Poly { return polyScale(a, big.NewInt(-1), q) }
func polySub(a, b Poly, q *big.Int) Poly {
	return polyLin(a, nil, b, big.NewInt(-1), q)
}

func sortPoly(p Poly) {
	sort.Slice(p, func(i, j int) bool { return cmpMono(p[i].m, p[j].m) > 0 })
}

func polyMul(a, b Poly, q *big.Int, inv map[int32]int32) Poly {
	if len(a) == 0 || len(b) == 0 {
		return nil
	}
	if c, ok := a.isConst(); ok {
		return polyScale(b, c, q)
	}
	if c, ok := b.isConst(); ok {
		return polyScale(a, c, q)
	}
	acc := make(map[string]int, len(a)*len(b))
	r := make(Poly, 0, len(a)*len(b))
	t := new(big.Int)
	for _, x := range a {
		for _, y := range b {
			m := mulMono(x.m, y.m, inv)
			k := m.key()
			if i, ok := acc[k]; ok {
				r[i].c.Add(r[i].c, t.Mul(x.c, y.c))
			} else {
				acc[k] = len(r)
				r = append(r, PTerm{m, new(big.Int).Mul(x.c, y.c)})
			}
		}
	}
	n := r[:0]
	for _, x := range r {
		x.c = redc(x.c, q)
		if x.c.Sign() != 0 {
			n = append(n, x)
		}
	}
	sortPoly(n)
	return n
}

func polyMod(a Poly, q *big.Int) Poly {
	r := make(Poly, 0, len(a))
	for _, x := range a {
		c := redc(new(big.Int).Set(x.c), q)
		if c.Sign() != 0 {
			r = append(r, PTerm{x.m, c})
		}
	}
	return r
}

func (p Poly) key() string {
	var b []byte
	for _, t := range p {
		k := t.m.key()
		b = binary.AppendUvarint(b, uint64(len(k)))
		b = append(b, k...)
		cb := t.c.Bytes()
		n := uint64(len(cb)) << 1
		if t.c.Sign() < 0 {
			n |= 1
		}
		b = binary.AppendUvarint(b, n)
		b = append(b, cb...)
	}
	return string(b)
}

func polyEqual(a, b Poly) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if cmpMono(a[i].m, b[i].m) != 0 || a[i].c.Cmp(b[i].c) != 0 {
			return false
		}
	}
	return true
}

func (p Poly) vars(set map[int32]bool) {
	for _, t := range p {
		for _, v := range t.m.v {
			set[v] = true
		}
	}
}

// polySubst replaces variable v by polynomial s.
func polySubst(p Poly, v int32, s Poly, q *big.Int, inv map[int32]int32) Poly {
	has := false
	for _, t := range p {
		if t.m.exp(v) > 0 {
			has = true
			break
		}
	}
	if !has {
		return p
	}
	pows := []Poly{polyConst(big.NewInt(1)), s}
	acc := map[string]int{}
	var r Poly
	add := func(m Mono, c *big.Int) {
		k := m.key()
		if i, ok := acc[k]; ok {
			r[i].c.Add(r[i].c, c)
		} else {
			acc[k] = len(r)
			r = append(r, PTerm{m, new(big.Int).Set(c)})
		}
	}
	for _, t := range p {
		e := t.m.exp(v)
		if e == 0 {
			add(t.m, t.c)
			continue
		}
		rest := Mono{}
		for i := range t.m.v {
			if t.m.v[i] != v {
				rest.v = append(rest.v, t.m.v[i])
				rest.e = append(rest.e, t.m.e[i])
				rest.deg += t.m.e[i]
			}
		}
		for int(e) >= len(pows) {
			pows = append(pows, polyMul(pows[len(pows)-1], s, q, inv))
		}
		for _, u := range pows[e] {
			add(mulMono(rest, u.m, inv), new(big.Int).Mul(t.c, u.c))
		}
	}
	n := r[:0]
	for _, x := range r {
		x.c = redc(x.c, q)
		if x.c.Sign() != 0 {
			n = append(n, x)
		}
	}
	sortPoly(n)
	return n
}

// polyEval evaluates under an assignment (all variables must be assigned).
func polyEval(p Poly, val func(int32) *big.Int, q *big.Int) *big.Int {
	r := new(big.Int)
	for _, t := range p {
		x := new(big.Int).Set(t.c)
		for i, v := range t.m.v {
			a := val(v)
			for k := int32(0); k < t.m.e[i]; k++ {
				x.Mul(x, a)
				if q != nil {
					x.Mod(x, q)
				}
			}
		}
		r.Add(r, x)
	}
	if q != nil {
		r.Mod(r, q)
	}
	return r
}
