package main

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota // bool/bv constant (u), or Int constant (b)
	OpVar
	// Bool
	OpNot
	OpAnd
	OpOr
	OpEq   // args same sort (bool or bv)
	OpUlt  // bv
	OpSlt  // bv
	OpFFZ  // poly = 0 mod b
	OpIntZ // poly-int arg = 0
	OpIntN // poly-int arg < 0
	// BV
	OpBin // name = smt op, args 2
	OpBvNot
	OpBvNeg
	OpZext // u = new width
	OpSext
	OpExtract // low bits, new width w
	OpIte     // any sort
	OpI2BV    // int -> bv w
	// Int
	OpPoly
	OpMod   // poly mod b (Euclidean, b>0)
	OpDiv   // args[0] div b (floor, b>0)
	OpInv   // inverse of args[0] mod b
	OpBV2I  // args[0] bv; u=1 signed
	OpUF    // uninterpreted int function name(args)
)

type T struct {
	id     int32
	op     Op
	w      int // 0 bool, >0 bv width, -1 Int
	args   []*T
	u      uint64
	b      *big.Int
	name   string
	poly   Poly
	lo, hi *big.Int // inclusive Int bounds
	fq     *big.Int // "field element of" marker
	vset   map[int32]bool
}

func (t *T) isConst() bool { return t.op == OpConst }

type Ctx struct {
	tab    map[string]*T
	tab8   map[int32]table8
	ranges map[string][]string
	rng    map[int32][2]uint64 // known unsigned ranges
	form8  map[int32]bool
	all    []*T
	inv    map[int32]int32 // atom <-> inverse atom
	resid  map[string]Poly
	moduli map[string]*big.Int
	True   *T
	False  *T
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[string]*T{}, inv: map[int32]int32{}, resid: map[string]Poly{}, moduli: map[string]*big.Int{}}
	c.all = append(c.all, nil) // ids start at 1
	c.False = c.mk(&T{op: OpConst, w: 0, u: 0})
	c.True = c.mk(&T{op: OpConst, w: 0, u: 1})
	return c
}

func (c *Ctx) mk(t *T) *T {
	b := make([]byte, 0, 64)
	b = append(b, byte(t.op))
	b = binary.AppendVarint(b, int64(t.w))
	b = binary.AppendUvarint(b, t.u)
	for _, a := range t.args {
		b = binary.AppendUvarint(b, uint64(a.id))
	}
	b = append(b, 0xff)
	b = append(b, t.name...)
	if t.b != nil {
		b = append(b, 0xfe, byte(t.b.Sign()+1))
		b = append(b, t.b.Bytes()...)
	}
	if t.poly != nil {
		b = append(b, 0xfd)
		b = append(b, t.poly.key()...)
	}
	k := string(b)
	if x, ok := c.tab[k]; ok {
		return x
	}
	t.id = int32(len(c.all))
	c.all = append(c.all, t)
	c.tab[k] = t
	return t
}

// ---- booleans

func (c *Ctx) Bool(b bool) *T {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Not(a *T) *T {
	switch a.op {
	case OpConst:
		return c.Bool(a.u == 0)
	case OpNot:
		return a.args[0]
	}
	return c.mk(&T{op: OpNot, args: []*T{a}})
}
func (c *Ctx) And(a, b *T) *T {
	if a == c.False || b == c.False {
		return c.False
	}
	if a == c.True {
		return b
	}
	if b == c.True || a == b {
		return a
	}
	if c.Not(a) == b {
		return c.False
	}
	return c.mk(&T{op: OpAnd, args: []*T{a, b}})
}
func (c *Ctx) Or(a, b *T) *T {
	if a == c.True || b == c.True {
		return c.True
	}
	if a == c.False {
		return b
	}
	if b == c.False || a == b {
		return a
	}
	if c.Not(a) == b {
		return c.True
	}
	return c.mk(&T{op: OpOr, args: []*T{a, b}})
}
func (c *Ctx) Ite(k, a, b *T) *T {
	if k == c.True || a == b {
		return a
	}
	if k == c.False {
		return b
	}
	if a.w == 0 {
		if a == c.True && b == c.False {
			return k
		}
		switch {
		case a == c.False && b == c.True:
			return c.Not(k)
		case a == c.True:
			return c.Or(k, b)
		case a == c.False:
			return c.And(c.Not(k), b)
		case b == c.True:
			return c.Or(c.Not(k), a)
		case b == c.False:
			return c.And(k, a)
		}
	}
	t := &T{op: OpIte, w: a.w, args: []*T{k, a, b}}
	if a.w == -1 {
		if a.lo != nil && b.lo != nil {
			t.lo = minB(a.lo, b.lo)
		}
		if a.hi != nil && b.hi != nil {
			t.hi = maxB(a.hi, b.hi)
		}
	}
	return c.mk(t)
}

// ---- bit-vectors

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}
func sx(u uint64, w int) int64 {
	s := uint(64 - w)
	return int64(u<<s) >> s
}
func (c *Ctx) BV(u uint64, w int) *T { return c.mk(&T{op: OpConst, w: w, u: u & mask(w)}) }

func (c *Ctx) Var(name string, w int) *T { return c.mk(&T{op: OpVar, w: w, name: name}) }

func (c *Ctx) BinBV(op string, a, b *T) *T {
	w := a.w
	if a.isConst() && b.isConst() {
		x, y := a.u, b.u
		switch op {
		case "bvadd":
			return c.BV(x+y, w)
		case "bvsub":
			return c.BV(x-y, w)
		case "bvmul":
			return c.BV(x*y, w)
		case "bvand":
			return c.BV(x&y, w)
		case "bvor":
			return c.BV(x|y, w)
		case "bvxor":
			return c.BV(x^y, w)
		case "bvudiv":
			if y != 0 {
				return c.BV(x/y, w)
			}
		case "bvurem":
			if y != 0 {
				return c.BV(x%y, w)
			}
		case "bvsdiv":
			if y != 0 {
				if sx(y, w) == -1 {
					return c.BV(-x, w)
				}
				return c.BV(uint64(sx(x, w)/sx(y, w)), w)
			}
		case "bvsrem":
			if y != 0 {
				if sx(y, w) == -1 {
					return c.BV(0, w)
				}
				return c.BV(uint64(sx(x, w)%sx(y, w)), w)
			}
		case "bvshl":
			if y >= uint64(w) {
				return c.BV(0, w)
			}
			return c.BV(x<<y, w)
		case "bvlshr":
			if y >= uint64(w) {
				return c.BV(0, w)
			}
			return c.BV(x>>y, w)
		case "bvashr":
			if y >= uint64(w) {
				y = uint64(w - 1)
			}
			return c.BV(uint64(sx(x, w)>>y), w)
		}
	}
	if b.isConst() && b.u == 0 {
		switch op {
		case "bvadd", "bvsub", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr":
			return a
		case "bvmul", "bvand":
			return b
		}
	}
	if a.isConst() && a.u == 0 {
		switch op {
		case "bvadd", "bvor", "bvxor":
			return b
		case "bvmul", "bvand":
			return a
		}
	}
	if b.isConst() && b.u == 1 && (op == "bvmul" || op == "bvudiv" || op == "bvsdiv") {
		return a
	}
	if a == b && (op == "bvsub" || op == "bvxor") {
		return c.BV(0, w)
	}
	// (x + c1) + c2, (x - c1) ...
	if op == "bvsub" && b.isConst() {
		return c.BinBV("bvadd", a, c.BV(-b.u, w))
	}
	if op == "bvadd" {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && a.op == OpBin && a.name == "bvadd" && a.args[1].isConst() {
			return c.BinBV("bvadd", a.args[0], c.BV(a.args[1].u+b.u, w))
		}
	}
	return c.mk(&T{op: OpBin, w: w, name: op, args: []*T{a, b}})
}
func (c *Ctx) BVNot(a *T) *T {
	if a.isConst() {
		return c.BV(^a.u, a.w)
	}
	return c.mk(&T{op: OpBvNot, w: a.w, args: []*T{a}})
}
func (c *Ctx) BVNeg(a *T) *T {
	if a.isConst() {
		return c.BV(-a.u, a.w)
	}
	return c.mk(&T{op: OpBvNeg, w: a.w, args: []*T{a}})
}
func (c *Ctx) Resize(a *T, w int, signed bool) *T {
	if a.w == w {
		return a
	}
	if w < a.w {
		if a.isConst() {
			return c.BV(a.u, w)
		}
		if (a.op == OpZext || a.op == OpSext) && a.args[0].w >= w {
			return c.Resize(a.args[0], w, false)
		}
		return c.mk(&T{op: OpExtract, w: w, args: []*T{a}})
	}
	if a.isConst() {
		if signed {
			return c.BV(uint64(sx(a.u, a.w)), w)
		}
		return c.BV(a.u, w)
	}
	op := OpZext
	if signed {
		op = OpSext
	}
	if a.op == OpZext { // zext of zext, sext of zext
		return c.Resize(a.args[0], w, false)
	}
	return c.mk(&T{op: op, w: w, args: []*T{a}})
}

// constTree: an ite tree whose leaves are constants.
func constTree(t *T) bool {
	if t.op != OpIte {
		return false
	}
	for _, a := range t.args[1:] {
		if !a.isConst() && !constTree(a) {
			return false
		}
	}
	return true
}

func (c *Ctx) Eq(a, b *T) *T {
	if a == b {
		return c.True
	}
	if a.w == -1 {
		return c.IntEq(a, b)
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.u == b.u)
	}
	if a.isConst() {
		a, b = b, a
	}
	if r, ok := c.rng[a.id]; ok && b.isConst() && (b.u < r[0] || b.u > r[1]) {
		return c.False
	}
	if a.w == 0 {
		if b == c.True {
			return a
		}
		if b == c.False {
			return c.Not(a)
		}
	} else if b.isConst() {
		if a.op == OpZext {
			in := a.args[0]
			if b.u > mask(in.w) {
				return c.False
			}
			return c.Eq(in, c.BV(b.u, in.w))
		}
		if constTree(a) {
			return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
		}
		if a.op == OpBin && a.name == "bvadd" && a.args[1].isConst() {
			return c.Eq(a.args[0], c.BV(b.u-a.args[1].u, a.w))
		}
	} else if a.op == OpZext && b.op == OpZext && a.args[0].w == b.args[0].w {
		return c.Eq(a.args[0], b.args[0])
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return c.mk(&T{op: OpEq, args: []*T{a, b}})
}
func (c *Ctx) Lt(a, b *T, signed bool) *T {
	if a == b {
		return c.False
	}
	if a.isConst() && b.isConst() {
		if signed {
			return c.Bool(sx(a.u, a.w) < sx(b.u, b.w))
		}
		return c.Bool(a.u < b.u)
	}
	if r, ok := c.rng[a.id]; ok && b.isConst() && (!signed || sx(b.u, b.w) >= 0) {
		if r[1] < b.u {
			return c.True
		}
		if r[0] >= b.u {
			return c.False
		}
	}
	if r, ok := c.rng[b.id]; ok && a.isConst() {
		if signed && sx(a.u, a.w) < 0 || a.u < r[0] {
			return c.True
		}
		if a.u >= r[1] {
			return c.False
		}
	}
	if b.isConst() && constTree(a) {
		return c.Ite(a.args[0], c.Lt(a.args[1], b, signed), c.Lt(a.args[2], b, signed))
	}
	if a.isConst() && constTree(b) {
		return c.Ite(b.args[0], c.Lt(a, b.args[1], signed), c.Lt(a, b.args[2], signed))
	}
	// zext of narrower values
	if a.op == OpZext && b.isConst() {
		in := a.args[0]
		bs := b.u
		if signed && sx(b.u, b.w) < 0 {
			return c.False
		}
		if bs > mask(in.w) {
			return c.True
		}
		return c.Lt(in, c.BV(bs, in.w), false)
	}
	if b.op == OpZext && a.isConst() {
		in := b.args[0]
		if signed && sx(a.u, a.w) < 0 {
			return c.True
		}
		if a.u > mask(in.w) {
			return c.False
		}
		return c.Lt(c.BV(a.u, in.w), in, false)
	}
	if !signed {
		if b.isConst() && b.u == 0 {
			return c.False
		}
		if a.isConst() && a.u == mask(a.w) {
			return c.False
		}
	}
	op := OpUlt
	if signed {
		op = OpSlt
	}
	return c.mk(&T{op: op, args: []*T{a, b}})
}

// ---- integers

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func (c *Ctx) Int(b *big.Int) *T {
	b = new(big.Int).Set(b)
	return c.mk(&T{op: OpConst, w: -1, b: b, lo: b, hi: b})
}
func (c *Ctx) IntVar(name string, lo, hi, fq *big.Int) *T {
	// a name with another range is another variable
	if c.ranges == nil {
		c.ranges = map[string][]string{}
	}
	r := fmt.Sprint(lo, hi, fq)
	k := 0
	for k < len(c.ranges[name]) && c.ranges[name][k] != r {
		k++
	}
	if k == len(c.ranges[name]) {
		c.ranges[name] = append(c.ranges[name], r)
	}
	if k > 0 {
		name = fmt.Sprintf("%s!r%d", name, k)
	}
	t := c.mk(&T{op: OpVar, w: -1, name: name, lo: lo, hi: hi, fq: fq})
	if fq != nil {
		c.moduli[fq.String()] = fq
	}
	return t
}

func (c *Ctx) asPoly(t *T) Poly {
	switch t.op {
	case OpConst:
		return polyConst(t.b)
	case OpPoly:
		return t.poly
	}
	return polyVar(t.id)
}

func (c *Ctx) bounds(p Poly) (lo, hi *big.Int) {
	lo, hi = new(big.Int), new(big.Int)
	for _, t := range p {
		l, h := new(big.Int).Set(t.c), new(big.Int).Set(t.c)
		for i, v := range t.m.v {
			a := c.all[v]
			for k := int32(0); k < t.m.e[i]; k++ {
				if a.lo == nil || a.hi == nil {
					return nil, nil
				}
				x := []*big.Int{new(big.Int).Mul(l, a.lo), new(big.Int).Mul(l, a.hi), new(big.Int).Mul(h, a.lo), new(big.Int).Mul(h, a.hi)}
				l, h = x[0], x[0]
				for _, y := range x[1:] {
					l = minB(l, y)
					h = maxB(h, y)
				}
			}
		}
		lo.Add(lo, l)
		hi.Add(hi, h)
	}
	return
}

func (c *Ctx) fromPoly(p Poly) *T {
	if k, ok := p.isConst(); ok {
		return c.Int(k)
	}
	if len(p) == 1 && p[0].m.deg == 1 && p[0].c.IsInt64() && p[0].c.Int64() == 1 {
		return c.all[p[0].m.v[0]]
	}
	t := &T{op: OpPoly, w: -1, poly: p}
	x := c.mk(t)
	if x == t {
		x.lo, x.hi = c.bounds(p)
	}
	return x
}

func (c *Ctx) IAdd(a, b *T) *T {
	if a.isConst() && b.isConst() {
		return c.Int(new(big.Int).Add(a.b, b.b))
	}
	return c.fromPoly(polyAdd(c.asPoly(a), c.asPoly(b), nil))
}
func (c *Ctx) ISub(a, b *T) *T {
	if a.isConst() && b.isConst() {
		return c.Int(new(big.Int).Sub(a.b, b.b))
	}
	return c.fromPoly(polySub(c.asPoly(a), c.asPoly(b), nil))
}
func (c *Ctx) INeg(a *T) *T    { return c.fromPoly(polyNeg(c.asPoly(a), nil)) }
func (c *Ctx) IMul(a, b *T) *T {
	if a.isConst() && b.isConst() {
		return c.Int(new(big.Int).Mul(a.b, b.b))
	}
	// integers: no cancellation x*inv(x) (only valid modulo q)
	return c.fromPoly(polyMul(c.asPoly(a), c.asPoly(b), nil, nil))
}

// Resid: the residue of t modulo q as polynomial over base atoms.
func (c *Ctx) Resid(t *T, q *big.Int) Poly {
	switch t.op {
	case OpConst:
		return polyMod(polyConst(t.b), q)
	case OpMod:
		if t.b.Cmp(q) == 0 {
			return t.poly
		}
		return polyVar(t.id)
	case OpPoly:
		key := fmt.Sprintf("%d/%d", t.id, c.Int(q).id)
		if p, ok := c.resid[key]; ok {
			return p
		}
		p := c.ResidPoly(t.poly, q)
		c.resid[key] = p
		return p
	}
	return polyVar(t.id)
}

func (c *Ctx) ResidPoly(p Poly, q *big.Int) Poly {
	need := false
	for _, t := range p {
		for _, v := range t.m.v {
			if a := c.all[v]; (a.op == OpMod && a.b.Cmp(q) == 0) || c.inv[v] != 0 {
				need = true
			}
		}
	}
	if !need {
		return polyMod(p, q)
	}
	acc := map[string]int{}
	var out Poly
	for _, t := range p {
		cur := polyMod(polyConst(t.c), q)
		for i, v := range t.m.v {
			a := c.all[v]
			f := polyVar(v)
			if a.op == OpMod && a.b.Cmp(q) == 0 {
				f = a.poly
			}
			for k := int32(0); k < t.m.e[i]; k++ {
				cur = polyMul(cur, f, q, c.inv)
			}
		}
		for _, u := range cur {
			k := u.m.key()
			if i, ok := acc[k]; ok {
				out[i].c = redc(new(big.Int).Add(out[i].c, u.c), q)
			} else {
				acc[k] = len(out)
				out = append(out, u)
			}
		}
	}
	n := out[:0]
	for _, x := range out {
		if x.c.Sign() != 0 {
			n = append(n, x)
		}
	}
	sortPoly(n)
	return n
}

func (c *Ctx) Mod(t *T, q *big.Int) *T {
	if q.Sign() < 0 {
		q = new(big.Int).Neg(q)
	}
	if t.isConst() {
		return c.Int(new(big.Int).Mod(t.b, q))
	}
	if t.lo != nil && t.hi != nil && t.lo.Sign() >= 0 && t.hi.Cmp(q) < 0 {
		return t
	}
	c.moduli[q.String()] = q
	p := c.Resid(t, q)
	return c.ModOfPoly(p, q)
}

func (c *Ctx) ModOfPoly(p Poly, q *big.Int) *T {
	if k, ok := p.isConst(); ok {
		return c.Int(k)
	}
	if len(p) == 1 && p[0].m.deg == 1 && p[0].c.IsInt64() && p[0].c.Int64() == 1 {
		a := c.all[p[0].m.v[0]]
		if a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil && a.hi.Cmp(q) < 0 {
			return a
		}
	}
	return c.mk(&T{op: OpMod, w: -1, poly: p, b: q, lo: new(big.Int), hi: new(big.Int).Sub(q, big.NewInt(1)), fq: q})
}

// Div: floor division by a positive constant.
func (c *Ctx) Div(t *T, d *big.Int) *T {
	if t.isConst() {
		return c.Int(new(big.Int).Div(t.b, d))
	}
	if d.IsInt64() && d.Int64() == 1 {
		return t
	}
	// exact split: terms divisible by d leave; the rest must be within [0,d)
	p := c.asPoly(t)
	var divp, rest Poly
	for _, x := range p {
		qq, r := new(big.Int).DivMod(x.c, d, new(big.Int))
		if r.Sign() == 0 {
			divp = append(divp, PTerm{x.m, qq})
		} else {
			rest = append(rest, x)
		}
	}
	rl, rh := c.bounds(rest)
	if rl != nil && rl.Sign() >= 0 && rh.Cmp(d) < 0 {
		return c.fromPoly(divp)
	}
	x := &T{op: OpDiv, w: -1, args: []*T{t}, b: d}
	if t.lo != nil && t.hi != nil {
		x.lo = new(big.Int).Div(t.lo, d)
		x.hi = new(big.Int).Div(t.hi, d)
		if x.lo.Cmp(x.hi) == 0 {
			return c.Int(x.lo)
		}
	}
	// (a div d1) div d2 = a div (d1*d2)
	if t.op == OpDiv {
		return c.Div(t.args[0], new(big.Int).Mul(t.b, d))
	}
	return c.mk(x)
}

// Inv: inverse atom of a residue known to be non-zero. Returns the atom/term.
func (c *Ctx) Inv(t *T, q *big.Int) *T {
	p := c.Resid(t, q)
	if k, ok := p.isConst(); ok {
		return c.Int(new(big.Int).ModInverse(k, q))
	}
	if len(p) == 1 {
		// monomial: product of inverses
		r := polyConst(new(big.Int).ModInverse(p[0].c, q))
		for i, v := range p[0].m.v {
			for k := int32(0); k < p[0].m.e[i]; k++ {
				r = polyMul(r, polyVar(c.invAtom(v, q)), q, c.inv)
			}
		}
		return c.ModOfPoly(r, q)
	}
	lc := new(big.Int).ModInverse(p[0].c, q)
	m := polyScale(p, lc, q)
	base := c.ModOfPoly(m, q)
	a := c.mk(&T{op: OpInv, w: -1, args: []*T{base}, b: q, lo: big.NewInt(1), hi: new(big.Int).Sub(q, big.NewInt(1)), fq: q})
	return c.ModOfPoly(polyScale(polyVar(a.id), lc, q), q)
}

func (c *Ctx) invAtom(v int32, q *big.Int) int32 {
	if w, ok := c.inv[v]; ok {
		return w
	}
	a := c.mk(&T{op: OpInv, w: -1, args: []*T{c.all[v]}, b: q, lo: big.NewInt(1), hi: new(big.Int).Sub(q, big.NewInt(1)), fq: q})
	c.inv[v] = a.id
	c.inv[a.id] = v
	return a.id
}

// FFZero: p = 0 mod q as a Bool.
func (c *Ctx) FFZero(p Poly, q *big.Int) *T {
	if k, ok := p.isConst(); ok {
		return c.Bool(k.Sign() == 0)
	}
	lc := p[0].c
	if !(lc.IsInt64() && lc.Int64() == 1) {
		inv := new(big.Int).ModInverse(lc, q)
		if inv != nil {
			p = polyScale(p, inv, q)
		}
	}
	if len(p) == 1 && p[0].m.deg > 0 {
		// product of atoms is zero: strip inverse atoms (units) and powers
		n := Mono{}
		for i, v := range p[0].m.v {
			if c.all[v].op == OpInv {
				continue
			}
			_ = i
			n.v = append(n.v, v)
			n.e = append(n.e, 1)
			n.deg++
		}
		if n.deg == 0 {
			return c.False
		}
		p = Poly{{n, big.NewInt(1)}}
	}
	if len(p) == 2 && p[1].m.deg == 0 && p[0].m.deg == 1 {
		a := c.all[p[0].m.v[0]]
		root := new(big.Int).Sub(q, p[1].c)
		root.Mod(root, q)
		if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(q) < 0 {
			if root.Cmp(a.lo) < 0 || root.Cmp(a.hi) > 0 {
				return c.False
			}
		}
	}
	return c.mk(&T{op: OpFFZ, poly: p, b: q})
}

// small0 reports whether |t| < q is known.
func withinQ(t *T, q *big.Int) bool {
	if t.lo == nil || t.hi == nil {
		return false
	}
	nq := new(big.Int).Neg(q)
	return t.hi.Cmp(q) < 0 && t.lo.Cmp(nq) > 0
}

func (c *Ctx) polyField(p Poly) *big.Int {
	var q *big.Int
	for _, t := range p {
		for _, v := range t.m.v {
			a := c.all[v]
			if a.fq != nil {
				if q != nil && q.Cmp(a.fq) != 0 {
					return nil
				}
				q = a.fq
			}
		}
	}
	return q
}

func (c *Ctx) IntEq(a, b *T) *T {
	if a == b {
		return c.True
	}
	return c.IntZero(c.ISub(a, b))
}

func (c *Ctx) IntZero(d *T) *T {
	if d.isConst() {
		return c.Bool(d.b.Sign() == 0)
	}
	if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
		return c.False
	}
	p := c.asPoly(d)
	if q := c.polyField(p); q != nil && withinQ(d, q) && q.ProbablyPrime(8) {
		return c.FFZero(c.Resid(d, q), q)
	}
	return c.mk(&T{op: OpIntZ, args: []*T{d}})
}

// IntNeg: d < 0
func (c *Ctx) IntNeg(d *T) *T {
	if d.isConst() {
		return c.Bool(d.b.Sign() < 0)
	}
	if d.lo != nil && d.lo.Sign() >= 0 {
		return c.False
	}
	if d.hi != nil && d.hi.Sign() < 0 {
		return c.True
	}
	return c.mk(&T{op: OpIntN, args: []*T{d}})
}
func (c *Ctx) IntLt(a, b *T) *T { return c.IntNeg(c.ISub(a, b)) }

func (c *Ctx) BV2Int(a *T, signed bool) *T {
	if a.isConst() {
		if signed {
			return c.Int(big.NewInt(sx(a.u, a.w)))
		}
		return c.Int(new(big.Int).SetUint64(a.u))
	}
	if a.op == OpZext {
		return c.BV2Int(a.args[0], false)
	}
	if a.op == OpI2BV {
		in := a.args[0]
		var lo, hi *big.Int
		if signed {
			lo = new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), uint(a.w-1)))
			hi = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(a.w-1)), big.NewInt(1))
		} else {
			lo = new(big.Int)
			hi = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(a.w)), big.NewInt(1))
		}
		if in.lo != nil && in.hi != nil && in.lo.Cmp(lo) >= 0 && in.hi.Cmp(hi) <= 0 {
			return in
		}
	}
	u := uint64(0)
	lo := new(big.Int)
	hi := new(big.Int).SetUint64(mask(a.w))
	if signed {
		u = 1
		lo = big.NewInt(sx(uint64(1)<<uint(a.w-1), a.w))
		hi = new(big.Int).SetUint64(mask(a.w) >> 1)
	}
	if a.op == OpIte && a.args[1].isConst() && a.args[2].isConst() {
		return c.Ite(a.args[0], c.BV2Int(a.args[1], signed), c.BV2Int(a.args[2], signed))
	}
	return c.mk(&T{op: OpBV2I, w: -1, args: []*T{a}, u: u, lo: lo, hi: hi})
}
func (c *Ctx) Int2BV(a *T, w int) *T {
	if a.isConst() {
		m := new(big.Int).And(a.b, new(big.Int).SetUint64(mask(w)))
		return c.BV(m.Uint64(), w)
	}
	if a.op == OpBV2I && a.args[0].w == w {
		return a.args[0]
	}
	if a.op == OpBV2I && a.args[0].w < w {
		return c.Resize(a.args[0], w, a.u == 1)
	}
	return c.mk(&T{op: OpI2BV, w: w, args: []*T{a}})
}

// ---- variable sets

func (c *Ctx) Vars(t *T) map[int32]bool {
	if t.vset != nil {
		return t.vset
	}
	s := map[int32]bool{}
	if t.op == OpVar {
		s[t.id] = true
	}
	for _, a := range t.args {
		for v := range c.Vars(a) {
			s[v] = true
		}
	}
	for _, m := range t.poly {
		for _, v := range m.m.v {
			for x := range c.Vars(c.all[v]) {
				s[x] = true
			}
		}
	}
	t.vset = s
	return s
}

// ---- evaluation under a model (variables -> value). Missing = 0.

type Model struct {
	bv  map[int32]uint64
	i   map[int32]*big.Int
}

func newModel() *Model { return &Model{bv: map[int32]uint64{}, i: map[int32]*big.Int{}} }

func (c *Ctx) evalBV(t *T, m *Model, memo map[int32]any) uint64 {
	if x, ok := memo[t.id]; ok {
		return x.(uint64)
	}
	var r uint64
	switch t.op {
	case OpConst:
		r = t.u
	case OpVar:
		r = m.bv[t.id]
	case OpBin:
		x := c.BV(c.evalBV(t.args[0], m, memo), t.w)
		y := c.BV(c.evalBV(t.args[1], m, memo), t.w)
		z := c.BinBV(t.name, x, y)
		if !z.isConst() { // division by zero
			switch t.name {
			case "bvudiv":
				r = mask(t.w)
			default:
				r = x.u
			}
		} else {
			r = z.u
		}
	case OpBvNot:
		r = ^c.evalBV(t.args[0], m, memo) & mask(t.w)
	case OpBvNeg:
		r = -c.evalBV(t.args[0], m, memo) & mask(t.w)
	case OpZext:
		r = c.evalBV(t.args[0], m, memo)
	case OpSext:
		r = uint64(sx(c.evalBV(t.args[0], m, memo), t.args[0].w)) & mask(t.w)
	case OpExtract:
		r = c.evalBV(t.args[0], m, memo) & mask(t.w)
	case OpIte:
		if c.evalBool(t.args[0], m, memo) {
			r = c.evalBV(t.args[1], m, memo)
		} else {
			r = c.evalBV(t.args[2], m, memo)
		}
	case OpI2BV:
		v := c.evalInt(t.args[0], m, memo)
		r = new(big.Int).And(v, new(big.Int).SetUint64(mask(t.w))).Uint64()
	default:
		panic(fmt.Sprintf("evalBV op %d", t.op))
	}
	memo[t.id] = r
	return r
}

func (c *Ctx) evalInt(t *T, m *Model, memo map[int32]any) *big.Int {
	if x, ok := memo[t.id]; ok {
		return x.(*big.Int)
	}
	var r *big.Int
	val := func(v int32) *big.Int { return c.evalInt(c.all[v], m, memo) }
	switch t.op {
	case OpConst:
		r = t.b
	case OpVar:
		r = m.i[t.id]
		if r == nil {
			r = new(big.Int)
			if t.lo != nil && t.lo.Sign() > 0 {
				r = t.lo
			}
		}
	case OpPoly:
		r = polyEval(t.poly, val, nil)
	case OpMod:
		r = polyEval(t.poly, val, t.b)
	case OpDiv:
		r = new(big.Int).Div(c.evalInt(t.args[0], m, memo), t.b)
	case OpInv:
		r = new(big.Int).ModInverse(c.evalInt(t.args[0], m, memo), t.b)
		if r == nil {
			r = new(big.Int)
		}
	case OpBV2I:
		u := c.evalBV(t.args[0], m, memo)
		if t.u == 1 {
			r = big.NewInt(sx(u, t.args[0].w))
		} else {
			r = new(big.Int).SetUint64(u)
		}
	case OpIte:
		if c.evalBool(t.args[0], m, memo) {
			r = c.evalInt(t.args[1], m, memo)
		} else {
			r = c.evalInt(t.args[2], m, memo)
		}
	case OpUF:
		r = m.i[t.id]
		if r == nil {
			r = new(big.Int)
		}
	default:
		panic(fmt.Sprintf("evalInt op %d", t.op))
	}
	memo[t.id] = r
	return r
}

func (c *Ctx) evalBool(t *T, m *Model, memo map[int32]any) bool {
	if x, ok := memo[t.id]; ok {
		return x.(bool)
	}
	var r bool
	switch t.op {
	case OpConst:
		r = t.u != 0
	case OpVar:
		r = m.bv[t.id] != 0
	case OpNot:
		r = !c.evalBool(t.args[0], m, memo)
	case OpAnd:
		r = c.evalBool(t.args[0], m, memo) && c.evalBool(t.args[1], m, memo)
	case OpOr:
		r = c.evalBool(t.args[0], m, memo) || c.evalBool(t.args[1], m, memo)
	case OpEq:
		if t.args[0].w == 0 {
			r = c.evalBool(t.args[0], m, memo) == c.evalBool(t.args[1], m, memo)
		} else {
			r = c.evalBV(t.args[0], m, memo) == c.evalBV(t.args[1], m, memo)
		}
	case OpUlt:
		r = c.evalBV(t.args[0], m, memo) < c.evalBV(t.args[1], m, memo)
	case OpSlt:
		r = sx(c.evalBV(t.args[0], m, memo), t.args[0].w) < sx(c.evalBV(t.args[1], m, memo), t.args[1].w)
	case OpIte:
		if c.evalBool(t.args[0], m, memo) {
			r = c.evalBool(t.args[1], m, memo)
		} else {
			r = c.evalBool(t.args[2], m, memo)
		}
	case OpFFZ:
		v := polyEval(t.poly, func(v int32) *big.Int { return c.evalInt(c.all[v], m, memo) }, t.b)
		r = v.Sign() == 0
	case OpIntZ:
		r = c.evalInt(t.args[0], m, memo).Sign() == 0
	case OpIntN:
		r = c.evalInt(t.args[0], m, memo).Sign() < 0
	default:
		panic(fmt.Sprintf("evalBool op %d", t.op))
	}
	memo[t.id] = r
	return r
}

// ---- printing

func (c *Ctx) polyString(p Poly) string {
	if len(p) == 0 {
		return "0"
	}
	var sb strings.Builder
	for i, t := range p {
		if i > 0 {
			sb.WriteString(" + ")
		}
		if i > 12 {
			fmt.Fprintf(&sb, "...(%d terms)", len(p))
			break
		}
		sb.WriteString(t.c.String())
		for k, v := range t.m.v {
			fmt.Fprintf(&sb, "*%s", c.atomName(v))
			if t.m.e[k] > 1 {
				fmt.Fprintf(&sb, "^%d", t.m.e[k])
			}
		}
	}
	return sb.String()
}

func (c *Ctx) atomName(v int32) string {
	a := c.all[v]
	switch a.op {
	case OpVar:
		return a.name
	case OpInv:
		return "inv(" + c.String(a.args[0]) + ")"
	}
	return fmt.Sprintf("t%d", v)
}

func (c *Ctx) String(t *T) string {
	switch t.op {
	case OpConst:
		if t.w == -1 {
			return t.b.String()
		}
		return fmt.Sprint(t.u)
	case OpVar:
		return t.name
	case OpPoly:
		return c.polyString(t.poly)
	case OpMod:
		return "(" + c.polyString(t.poly) + ") mod " + short(t.b)
	case OpFFZ:
		return "[" + c.polyString(t.poly) + " =0 mod " + short(t.b) + "]"
	case OpIntZ:
		return "[" + c.String(t.args[0]) + " = 0]"
	case OpIntN:
		return "[" + c.String(t.args[0]) + " < 0]"
	}
	var s []string
	for _, a := range t.args {
		s = append(s, c.String(a))
	}
	n := t.name
	if n == "" {
		n = fmt.Sprintf("op%d", t.op)
	}
	return n + "(" + strings.Join(s, ",") + ")"
}

func short(b *big.Int) string {
	s := b.String()
	if len(s) > 12 {
		return s[:5] + ".." + s[len(s)-4:]
	}
	return s
}

func sortedIDs(m map[int32]bool) []int32 {
	r := make([]int32, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}
