package main

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}

type hashClass struct {
	in  []Piece
	dig [32]byte
}

func findIntrinsic(name, path string, fn *ssa.Function) intrinsic {
	if f, ok := intrinsics[name]; ok {
		return f
	}
	if strings.HasPrefix(path, modPath) && strings.HasPrefix(fn.Name(), "sym") && fn.Signature.Recv() == nil && fn.Parent() == nil {
		if f, ok := symAPI[fn.Name()]; ok {
			return f
		}
	}
	return nil
}

func (w *Worker) bigCell(fr *frame, v Value, write bool) *Value {
	p := w.deref(fr, v)
	w.track(fr, p, write)
	return p
}

func (w *Worker) big(fr *frame, v Value) *T {
	p := w.deref(fr, v)
	w.track(fr, p, false)
	t, ok := (*p).(*T)
	if !ok {
		panic(engineError(fmt.Sprintf("big.Int cell holds %T", *p)))
	}
	return t
}

func (w *Worker) setBig(fr *frame, v Value, t *T) Value {
	p := w.deref(fr, v)
	w.track(fr, p, true)
	*p = t
	return v
}

func (w *Worker) newBig(t *T) *Value {
	p := new(Value)
	*p = t
	return p
}

func errIface(msg Value) Iface {
	return Iface{errType, msg}
}

// errors made by the engine: opaque values with an Error method
var errType = &opaqueType{name: "*errors.errorString"}

func init() {
	errType.methods = map[string]func(fr *frame, args []Value) Value{
		"Error": func(fr *frame, args []Value) Value {
			return (*args[0].(*Value))
		},
	}
	// Unwrap exists for wrapped errors only
}

func mkErr(msg Value) Iface {
	p := new(Value)
	*p = msg
	return Iface{errType, p}
}

func (w *Worker) cmpT(a, b *T) Value {
	c := w.c
	d := c.ISub(a, b)
	z := c.IntZero(d)
	n := c.IntNeg(d)
	return w.unbv(c.Ite(z, c.BV(0, 64), c.Ite(n, c.BV(^uint64(0), 64), c.BV(1, 64))))
}

func (w *Worker) posConst(fr *frame, t *T, what string) *big.Int {
	if !t.isConst() {
		panic(engineError("symbolic modulus or divisor in " + what))
	}
	if t.b.Sign() == 0 {
		w.panicRT(fr, "division by zero")
	}
	return t.b
}

func (w *Worker) inverse(fr *frame, g *T, n *big.Int) (*T, bool) {
	c := w.c
	if g.isConst() {
		r := new(big.Int).ModInverse(g.b, n)
		if r == nil {
			return nil, false
		}
		return c.Int(r), true
	}
	if !n.ProbablyPrime(10) {
		panic(engineError("inverse modulo a composite"))
	}
	p := c.Resid(g, n)
	if w.branch(c.FFZero(p, n)) {
		return nil, false
	}
	return c.Inv(g, n), true
}

func (w *Worker) expT(fr *frame, x, y *T, m *big.Int) *T {
	c := w.c
	if m == nil || m.Sign() == 0 {
		if x.isConst() && y.isConst() {
			return c.Int(new(big.Int).Exp(x.b, y.b, nil))
		}
		if y.isConst() && y.b.IsInt64() && y.b.Int64() <= 16 {
			r := c.Int(big.NewInt(1))
			for i := int64(0); i < y.b.Int64(); i++ {
				r = c.IMul(r, x)
			}
			return r
		}
		panic(engineError("symbolic exponentiation without modulus"))
	}
	if !y.isConst() {
		panic(engineError("symbolic exponent"))
	}
	if x.isConst() {
		r := new(big.Int).Exp(x.b, y.b, m)
		if r == nil {
			return nil
		}
		return c.Int(r)
	}
	e := y.b
	if e.Sign() < 0 {
		iv, ok := w.inverse(fr, x, m)
		if !ok {
			return nil
		}
		x = iv
		e = new(big.Int).Neg(e)
	}
	if e.Sign() == 0 {
		return c.Mod(c.Int(big.NewInt(1)), m)
	}
	prime := m.ProbablyPrime(10)
	if prime {
		// x^e = x^(e mod (m-1)) for x != 0; exponent 0 only for x != 0
		m1 := new(big.Int).Sub(m, big.NewInt(1))
		if e.Cmp(big.NewInt(64)) > 0 {
			if w.branch(c.FFZero(c.Resid(x, m), m)) {
				return c.Int(new(big.Int))
			}
			e = new(big.Int).Mod(e, m1)
			neg := new(big.Int).Sub(m1, e)
			if neg.Cmp(e) < 0 && neg.Cmp(big.NewInt(64)) <= 0 {
				x = c.Inv(x, m)
				e = neg
			}
		}
	}
	if e.BitLen() > 12 {
		panic(engineError("large symbolic power"))
	}
	r := polyConst(big.NewInt(1))
	b := c.Resid(x, m)
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = polyMul(r, r, m, c.inv)
		if e.Bit(i) == 1 {
			r = polyMul(r, b, m, c.inv)
		}
		if len(r) > 20000 {
			panic(engineError("power too large"))
		}
	}
	return c.ModOfPoly(r, m)
}

// bitT gives bit i of a non-negative integer as a 64-bit vector 0/1.
func (w *Worker) bitT(t *T, i int) *T {
	c := w.c
	d := c.Div(t, new(big.Int).Lsh(big.NewInt(1), uint(i)))
	return c.Int2BV(c.Mod(d, big.NewInt(2)), 64)
}

func i64(v Value) int64 { return int64(v.(uint64)) }

func (w *Worker) cInt64(v Value) int64 { return int64(w.concInt(v)) }

func init() {
	B := "(*math/big.Int)."
	reg := func(n string, f intrinsic) { intrinsics[n] = f }
	bin := func(n string, f func(c *Ctx, a, b *T) *T) {
		reg(B+n, func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			return w.setBig(fr, a[0], f(w.c, w.big(fr, a[1]), w.big(fr, a[2])))
		})
	}
	bin("Add", func(c *Ctx, a, b *T) *T { return c.IAdd(a, b) })
	bin("Sub", func(c *Ctx, a, b *T) *T { return c.ISub(a, b) })
	bin("Mul", func(c *Ctx, a, b *T) *T { return c.IMul(a, b) })
	reg("math/big.NewInt", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.newBig(w.c.BV2Int(w.bv(a[0], 64), true))
	})
	reg(B+"Set", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.setBig(fr, a[0], w.big(fr, a[1]))
	})
	reg(B+"SetInt64", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.setBig(fr, a[0], w.c.BV2Int(w.bv(a[1], 64), true))
	})
	reg(B+"SetUint64", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.setBig(fr, a[0], w.c.BV2Int(w.bv(a[1], 64), false))
	})
	reg(B+"Neg", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.setBig(fr, a[0], w.c.INeg(w.big(fr, a[1])))
	})
	reg(B+"Abs", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.setBig(fr, a[0], w.absT(w.big(fr, a[1])))
	})
	reg(B+"Mod", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		x := w.big(fr, a[1])
		m := w.posConst(fr, w.big(fr, a[2]), "Mod")
		return w.setBig(fr, a[0], w.c.Mod(x, m))
	})
	reg(B+"Rem", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		x := w.big(fr, a[1])
		m := w.posConst(fr, w.big(fr, a[2]), "Rem")
		c := w.c
		if x.isConst() {
			return w.setBig(fr, a[0], c.Int(new(big.Int).Rem(x.b, m)))
		}
		if w.branch(c.IntNeg(x)) {
			return w.setBig(fr, a[0], c.INeg(c.Mod(c.INeg(x), m)))
		}
		return w.setBig(fr, a[0], c.Mod(x, m))
	})
	div := func(trunc bool) intrinsic {
		return func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			x := w.big(fr, a[1])
			if dt := w.big(fr, a[2]); !dt.isConst() {
				if w.branch(w.c.IntZero(dt)) {
					w.panicRT(fr, "division by zero")
				}
				if r, ok := w.exactDiv(x, dt); ok {
					return w.setBig(fr, a[0], r)
				}
			}
			d := w.posConst(fr, w.big(fr, a[2]), "Div")
			return w.setBig(fr, a[0], w.divT(x, d, trunc))
		}
	}
	reg(B+"Div", div(false))
	reg(B+"Quo", div(true))
	reg(B+"DivMod", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		x := w.big(fr, a[1])
		d := w.posConst(fr, w.big(fr, a[2]), "DivMod")
		w.setBig(fr, a[0], w.divT(x, d, false))
		w.setBig(fr, a[3], w.c.Mod(x, d))
		return Tuple{a[0], a[3]}
	})
	reg(B+"QuoRem", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		x := w.big(fr, a[1])
		d := w.posConst(fr, w.big(fr, a[2]), "QuoRem")
		q := w.divT(x, d, true)
		w.setBig(fr, a[0], q)
		w.setBig(fr, a[3], w.c.ISub(x, w.c.IMul(q, w.c.Int(d))))
		return Tuple{a[0], a[3]}
	})
	reg(B+"Exp", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		x, y := w.big(fr, a[1]), w.big(fr, a[2])
		var m *big.Int
		if p, ok := a[3].(*Value); ok && p != nil {
			mt := w.big(fr, a[3])
			if !mt.isConst() {
				panic(engineError("symbolic modulus in Exp"))
			}
			m = mt.b
		}
		r := w.expT(fr, x, y, m)
		if r == nil {
			return (*Value)(nil)
		}
		return w.setBig(fr, a[0], r)
	})
	reg(B+"ModInverse", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		g := w.big(fr, a[1])
		n := w.posConst(fr, w.big(fr, a[2]), "ModInverse")
		r, ok := w.inverse(fr, g, n)
		if !ok {
			return (*Value)(nil)
		}
		return w.setBig(fr, a[0], r)
	})
	reg(B+"Cmp", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.cmpT(w.big(fr, a[0]), w.big(fr, a[1]))
	})
	reg(B+"CmpAbs", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.cmpT(w.absT(w.big(fr, a[0])), w.absT(w.big(fr, a[1])))
	})
	reg(B+"Sign", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.cmpT(w.big(fr, a[0]), w.c.Int(new(big.Int)))
	})
	inRange := func(w *Worker, t *T, lo, hi *big.Int) *T {
		return w.c.And(w.c.Not(w.c.IntLt(t, w.c.Int(lo))), w.c.Not(w.c.IntLt(w.c.Int(hi), t)))
	}
	reg(B+"IsInt64", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.unbool(inRange(w, w.big(fr, a[0]), big.NewInt(math.MinInt64), big.NewInt(math.MaxInt64)))
	})
	reg(B+"IsUint64", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.unbool(inRange(w, w.big(fr, a[0]), new(big.Int), new(big.Int).SetUint64(math.MaxUint64)))
	})
	toU := func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		t := w.big(fr, a[0])
		if t.isConst() && t.b.IsInt64() {
			return uint64(t.b.Int64())
		}
		return w.unbv(w.c.Int2BV(t, 64))
	}
	reg(B+"Int64", toU)
	reg(B+"Uint64", toU)
	reg(B+"Bit", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		t := w.big(fr, a[0])
		i := int(w.concInt(a[1]))
		if t.isConst() {
			return uint64(t.b.Bit(i))
		}
		if t.lo == nil || t.lo.Sign() < 0 {
			if w.branch(w.c.IntNeg(t)) {
				// two's complement
				return w.unbv(w.bitT(w.c.IAdd(t, w.c.Int(new(big.Int).Lsh(big.NewInt(1), 600))), i))
			}
		}
		return w.unbv(w.bitT(t, i))
	})
	reg(B+"BitLen", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		t := w.absT(w.big(fr, a[0]))
		if t.isConst() {
			return uint64(t.b.BitLen())
		}
		n := 0
		for !w.branch(w.c.IntLt(t, w.c.Int(new(big.Int).Lsh(big.NewInt(1), uint(n))))) {
			n++
			if n > 600 {
				panic(engineError("BitLen of unbounded integer"))
			}
		}
		return uint64(n)
	})
	reg(B+"Lsh", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		n := w.concInt(a[2])
		return w.setBig(fr, a[0], w.c.IMul(w.big(fr, a[1]), w.c.Int(new(big.Int).Lsh(big.NewInt(1), uint(n)))))
	})
	reg(B+"Rsh", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		n := w.concInt(a[2])
		return w.setBig(fr, a[0], w.c.Div(w.big(fr, a[1]), new(big.Int).Lsh(big.NewInt(1), uint(n))))
	})
	conc2 := func(n string, f func(z, x, y *big.Int) *big.Int) {
		reg(B+n, func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			x, y := w.big(fr, a[1]), w.big(fr, a[2])
			if !x.isConst() || !y.isConst() {
				panic(engineError("symbolic big.Int." + n))
			}
			return w.setBig(fr, a[0], w.c.Int(f(new(big.Int), x.b, y.b)))
		})
	}
	conc2("And", (*big.Int).And)
	conc2("Or", (*big.Int).Or)
	conc2("Xor", (*big.Int).Xor)
	reg(B+"Sqrt", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		x := w.big(fr, a[1])
		if !x.isConst() {
			panic(engineError("symbolic Sqrt"))
		}
		return w.setBig(fr, a[0], w.c.Int(new(big.Int).Sqrt(x.b)))
	})
	reg(B+"SetBit", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		x := w.big(fr, a[1])
		if !x.isConst() {
			panic(engineError("symbolic SetBit"))
		}
		return w.setBig(fr, a[0], w.c.Int(new(big.Int).SetBit(x.b, int(w.concInt(a[2])), uint(w.concInt(a[3])))))
	})
	reg(B+"ProbablyPrime", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		x := w.big(fr, a[0])
		if !x.isConst() {
			panic(engineError("symbolic ProbablyPrime"))
		}
		return x.b.ProbablyPrime(10)
	})
	reg(B+"GCD", gcdIntrinsic)
	reg(B+"String", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		p, _ := a[0].(*Value)
		if p == nil {
			return "<nil>"
		}
		return w.numStr(w.big(fr, a[0]))
	})
	reg(B+"Text", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		t := w.big(fr, a[0])
		base := int(w.concInt(a[1]))
		if t.isConst() {
			return t.b.Text(base)
		}
		if base == 10 {
			return w.numStr(t)
		}
		w.opq++
		return &Str{p: []Piece{{opq: w.opq}}}
	})
	reg(B+"SetString", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		base := int(w.concInt(a[2]))
		t, ok := w.parseBig(a[1], base)
		if !ok {
			return Tuple{(*Value)(nil), false}
		}
		w.setBig(fr, a[0], t)
		return Tuple{a[0], true}
	})
	reg(B+"Bytes", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		t := w.big(fr, a[0])
		if t.isConst() {
			return goBytes(t.b.Bytes())
		}
		return &BigBytes{t: t}
	})
	reg(B+"Bits", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		t := w.big(fr, a[0])
		if !t.isConst() {
			t = w.absT(t)
			if w.branch(w.c.IntZero(t)) {
				return Slice(nil)
			}
			if w.branch(w.c.IntEq(t, w.c.Int(big.NewInt(1)))) {
				return Slice{uint64(1)}
			}
		}
		if t.isConst() {
			r := Slice(nil)
			for _, x := range t.b.Bits() {
				r = append(r, uint64(x))
			}
			return r
		}
		n := 0
		for !w.branch(w.c.IntLt(t, w.c.Int(new(big.Int).Lsh(big.NewInt(1), uint(64*n))))) {
			n++
			if n > 40 {
				panic(engineError("words of an unbounded integer"))
			}
		}
		var r Slice
		if n == 1 {
			// neither zero nor one: known facts about the word
			u := w.c.Int2BV(t, 64)
			for i := uint64(0); i < 2; i++ {
				w.assume(w.c.Not(w.c.Eq(u, w.c.BV(i, 64))))
			}
			return Slice{w.unbv(u)}
		}
		for i := 0; i < n; i++ {
			d := w.c.Div(t, new(big.Int).Lsh(big.NewInt(1), uint(64*i)))
			r = append(r, w.unbv(w.c.Int2BV(w.c.Mod(d, new(big.Int).Lsh(big.NewInt(1), 64)), 64)))
		}
		return r
	})
	reg(B+"FillBytes", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		t := w.big(fr, a[0])
		buf := w.bytesOf(fr, a[1])
		if w.branch(w.c.Not(w.c.IntLt(w.absT(t), w.c.Int(new(big.Int).Lsh(big.NewInt(1), uint(8*len(buf))))))) {
			w.panicRT(fr, "math/big: buffer too small to fit value")
		}
		t = w.absT(t)
		for i := range buf {
			d := w.c.Div(t, new(big.Int).Lsh(big.NewInt(1), uint(8*(len(buf)-1-i))))
			buf[i] = w.unbv(w.c.Int2BV(w.c.Mod(d, big.NewInt(256)), 8))
		}
		return a[1]
	})
	reg(B+"SetBytes", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		if b, ok := a[1].(*BigBytes); ok && b.forced == nil {
			return w.setBig(fr, a[0], w.absT(b.t))
		}
		return w.setBig(fr, a[0], w.fromBytes(w.bytesOf(fr, a[1])))
	})
	reg("crypto/rand.Int", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		m := w.big(fr, a[1])
		if !m.isConst() {
			panic(engineError("rand.Int with symbolic bound"))
		}
		if m.b.Sign() <= 0 {
			panic(targetPanic{Iface{types.Typ[types.String], "crypto/rand: argument to Int is <= 0"}, w.where(fr)})
		}
		t := w.input("rand", "big", func(n string) *T {
			return w.c.IntVar(n, new(big.Int), new(big.Int).Sub(m.b, big.NewInt(1)), m.b)
		})
		return Tuple{w.newBig(asT(t)), Iface{}}
	})
	reg("crypto/rand.Read", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		s := w.bytesOf(fr, a[0])
		for i := range s {
			s[i] = w.input("randbyte", "u", func(n string) *T { return w.c.Var(n, 8) })
		}
		return Tuple{uint64(len(s)), Iface{}}
	})
	// ---- fmt
	for _, n := range []string{"Println", "Printf", "Print"} {
		reg("fmt."+n, func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			return Tuple{uint64(0), Iface{}}
		})
	}
	for _, n := range []string{"Fprintln", "Fprintf", "Fprint"} {
		reg("fmt."+n, func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			return Tuple{uint64(0), Iface{}}
		})
	}
	reg("fmt.Sprintf", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.sprintf(fr, a[0], a[1])
	})
	reg("fmt.Errorf", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		return mkErr(w.sprintf(fr, a[0], a[1]))
	})
	reg("fmt.Sprint", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		s, _ := a[0].(Slice)
		var r Value = ""
		for i, x := range s {
			if i > 0 && !isStr(x.(Iface).v) && !isStr(s[i-1].(Iface).v) {
				r = strConcat(r, " ")
			}
			r = strConcat(r, w.format(fr, x, 'v', false, 0))
		}
		return r
	})
	reg("fmt.Sprintln", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		s, _ := a[0].(Slice)
		var r Value = ""
		for i, x := range s {
			if i > 0 {
				r = strConcat(r, " ")
			}
			r = strConcat(r, w.format(fr, x, 'v', false, 0))
		}
		return strConcat(r, "\n")
	})
	reg("errors.New", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value { return mkErr(a[0]) })
	// ---- strings.Builder
	sb := func(o Value) *opaqueObj { return (*o.(*Value)).(*opaqueObj) }
	add := func(w *Worker, fr *frame, recv Value, s Value) {
		p := w.deref(fr, recv)
		w.track(fr, p, true)
		o := sb(p)
		cur, _ := o.data.(Value)
		if cur == nil {
			cur = ""
		}
		*p = &opaqueObj{kind: "builder", data: strConcat(cur, s)}
	}
	reg("(*strings.Builder).WriteString", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		add(w, fr, a[0], a[1])
		return Tuple{uint64(0), Iface{}}
	})
	reg("(*strings.Builder).WriteByte", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		add(w, fr, a[0], fromPieces([]Piece{{b: a[1]}}))
		return Iface{}
	})
	reg("(*strings.Builder).WriteRune", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		add(w, fr, a[0], w.runeToStr(a[1], 32, true))
		return Tuple{uint64(1), Iface{}}
	})
	reg("(*strings.Builder).Write", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		var p []Piece
		for _, b := range w.bytesOf(fr, a[1]) {
			p = append(p, Piece{b: b})
		}
		add(w, fr, a[0], fromPieces(p))
		return Tuple{uint64(len(p)), Iface{}}
	})
	reg("(*strings.Builder).String", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		p := w.deref(fr, a[0])
		w.track(fr, p, false)
		cur, _ := sb(p).data.(Value)
		if cur == nil {
			cur = ""
		}
		return cur
	})
	reg("(*strings.Builder).Reset", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		p := w.deref(fr, a[0])
		*p = &opaqueObj{kind: "builder"}
		return nil
	})
	reg("(*strings.Builder).Len", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		cur, _ := sb(w.deref(fr, a[0])).data.(Value)
		if cur == nil {
			return uint64(0)
		}
		n, ok := strLen(cur)
		if !ok {
			panic(engineError("length of symbolic number text"))
		}
		return uint64(n)
	})
	reg("(*strings.Builder).Grow", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value { return nil })
	// ---- strings (concrete fast paths; symbolic where needed)
	reg("strings.Compare", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		x, ok1 := a[0].(string)
		y, ok2 := a[1].(string)
		if ok1 && ok2 {
			return uint64(int64(strings.Compare(x, y)))
		}
		if w.branch(w.strEq(a[0], a[1])) {
			return uint64(0)
		}
		if w.branch(w.strLess(a[0], a[1])) {
			return ^uint64(0)
		}
		return uint64(1)
	})
	idx := func(w *Worker, p []Piece, b Value, last bool) Value {
		x := w.bv(b, 8)
		for k := range p {
			i := k
			if last {
				i = len(p) - 1 - k
			}
			if p[i].num != nil || p[i].opq > 0 {
				panic(engineError("search in symbolic number text"))
			}
			if w.branch(w.c.Eq(w.bv(p[i].b, 8), x)) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	for _, n := range []string{"internal/bytealg.IndexByteString", "internal/bytealg.LastIndexByteString", "internal/stringslite.IndexByte", "strings.IndexByte", "strings.LastIndexByte"} {
		last := strings.Contains(n, "Last")
		reg(n, func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			switch s := a[0].(type) {
			case string:
				if b, ok := a[1].(uint64); ok {
					if last {
						return uint64(int64(strings.LastIndexByte(s, byte(b))))
					}
					return uint64(int64(strings.IndexByte(s, byte(b))))
				}
				return idx(w, toPieces(s), a[1], last)
			case *Str:
				return idx(w, s.p, a[1], last)
			}
			panic(engineError("IndexByte"))
		})
	}
	reg("strings.ContainsRune", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		s, ok := a[0].(string)
		if !ok {
			panic(engineError("ContainsRune on symbolic string"))
		}
		switch r := a[1].(type) {
		case uint64:
			return strings.ContainsRune(s, rune(int32(uint32(r))))
		case *T:
			// strings.IndexRune: invalid runes look for utf8.RuneError
			res := w.c.False
			for _, x := range s {
				res = w.c.Or(res, w.c.Eq(r, w.c.BV(uint64(uint32(x)), 32)))
			}
			return w.unbool(res)
		}
		panic(engineError("ContainsRune"))
	})
	reg("unicode/utf8.DecodeRuneInString", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		switch s := a[0].(type) {
		case string:
			r, n := utf8.DecodeRuneInString(s)
			return Tuple{uint64(uint32(r)), uint64(n)}
		case *Str:
			if len(s.p) == 0 {
				return Tuple{uint64(utf8.RuneError), uint64(0)}
			}
			r, n := w.decodeRune(s.p)
			return Tuple{r, uint64(n)}
		}
		panic(engineError("DecodeRuneInString"))
	})
	reg("unicode/utf8.RuneLen", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		switch r := a[0].(type) {
		case uint64:
			return uint64(int64(utf8.RuneLen(rune(int32(uint32(r))))))
		case *T:
			c := w.c
			lt := func(k uint64) bool { return w.branch(c.Lt(r, c.BV(k, 32), true)) }
			switch {
			case lt(0):
				return ^uint64(0)
			case lt(0x80):
				return uint64(1)
			case lt(0x800):
				return uint64(2)
			case lt(0xD800):
				return uint64(3)
			case lt(0xE000):
				return ^uint64(0)
			case lt(0x10000):
				return uint64(3)
			case lt(0x110000):
				return uint64(4)
			}
			return ^uint64(0)
		}
		panic(engineError("RuneLen"))
	})
	for n, f := range map[string]func(rune) bool{"IsDigit": unicode.IsDigit, "IsLetter": unicode.IsLetter, "IsSpace": unicode.IsSpace, "IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsNumber": unicode.IsNumber, "IsPunct": unicode.IsPunct} {
		f := f
		reg("unicode."+n, func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			switch r := a[0].(type) {
			case uint64:
				return f(rune(int32(uint32(r))))
			case *T:
				c := w.c
				if !w.branch(c.Lt(r, c.BV(0x80, 32), false)) {
					return f(rune(int32(uint32(w.concretize(r)))))
				}
				res := c.False
				for x := rune(0); x < 0x80; x++ {
					if !f(x) {
						continue
					}
					y := x
					for y+1 < 0x80 && f(y+1) {
						y++
					}
					res = c.Or(res, c.And(c.Not(c.Lt(r, c.BV(uint64(x), 32), false)), c.Not(c.Lt(c.BV(uint64(y), 32), r, false))))
					x = y
				}
				return w.unbool(res)
			}
			panic(engineError("unicode"))
		})
	}
	type sf2 = func(string, string) Value
	for n, f := range map[string]sf2{
		"HasPrefix": func(a, b string) Value { return strings.HasPrefix(a, b) },
		"HasSuffix": func(a, b string) Value { return strings.HasSuffix(a, b) },
		"Contains":  func(a, b string) Value { return strings.Contains(a, b) },
		"Index":     func(a, b string) Value { return uint64(int64(strings.Index(a, b))) },
		"LastIndex": func(a, b string) Value { return uint64(int64(strings.LastIndex(a, b))) },
		"Split":     func(a, b string) Value { return goStrs(strings.Split(a, b)) },
		"Trim":      func(a, b string) Value { return strings.Trim(a, b) },
		"TrimPrefix": func(a, b string) Value { return strings.TrimPrefix(a, b) },
		"TrimSuffix": func(a, b string) Value { return strings.TrimSuffix(a, b) },
		"Count":     func(a, b string) Value { return uint64(strings.Count(a, b)) },
	} {
		n, f := n, f
		reg("strings."+n, func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			x, ok1 := a[0].(string)
			y, ok2 := a[1].(string)
			if ok1 && ok2 {
				return f(x, y)
			}
			switch n {
			case "HasPrefix":
				if w.havePrefix(a[0], y) {
					return true
				}
				p, q := toPieces(a[0]), toPieces(a[1])
				if !hasComplex(p) && !hasComplex(q) {
					if len(q) > len(p) {
						return false
					}
					return w.unbool(w.piecesEq(p[:len(q)], q))
				}
			}
			panic(engineError("strings." + n + " on symbolic string"))
		})
	}
	for n, f := range map[string]func(string) string{"ToLower": strings.ToLower, "ToUpper": strings.ToUpper, "TrimSpace": strings.TrimSpace} {
		f := f
		reg("strings."+n, func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			x, ok := a[0].(string)
			if !ok {
				panic(engineError("strings op on symbolic string"))
			}
			return f(x)
		})
	}
	reg("strings.Repeat", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		n := w.cInt64(a[1])
		if n < 0 {
			w.panicRT(fr, "strings: negative Repeat count")
		}
		var r Value = ""
		for i := int64(0); i < n; i++ {
			r = strConcat(r, a[0])
		}
		return r
	})
	reg("strings.ReplaceAll", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		return strings.ReplaceAll(a[0].(string), a[1].(string), a[2].(string))
	})
	reg("strings.Join", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		var r Value = ""
		s, _ := a[0].(Slice)
		for i, x := range s {
			if i > 0 {
				r = strConcat(r, a[1])
			}
			r = strConcat(r, x)
		}
		return r
	})
	// ---- strconv
	reg("strconv.Itoa", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.numStr(w.c.BV2Int(w.bv(a[0], 64), true))
	})
	reg("strconv.FormatInt", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		if u, ok := a[0].(uint64); ok {
			return strconv.FormatInt(int64(u), int(w.concInt(a[1])))
		}
		return w.numStr(w.c.BV2Int(w.bv(a[0], 64), true))
	})
	parse := func(w *Worker, fr *frame, s Value, base int) Value {
		if x, ok := s.(string); ok {
			if t, ok := w.binds[x]; ok && base != 16 {
				if !w.branch(w.c.And(w.c.Not(w.c.IntLt(t, w.c.Int(big.NewInt(math.MinInt64)))), w.c.Not(w.c.IntLt(w.c.Int(big.NewInt(math.MaxInt64)), t)))) {
					return Tuple{uint64(math.MaxInt64), mkErr("value out of range")}
				}
				return Tuple{w.unbv(w.c.Int2BV(t, 64)), Iface{}}
			}
			n, err := strconv.ParseInt(x, base, 64)
			if err != nil {
				return Tuple{uint64(n), mkErr(err.Error())}
			}
			return Tuple{uint64(n), Iface{}}
		}
		if st, ok := s.(*Str); ok && len(st.p) == 1 && st.p[0].num != nil {
			t := st.p[0].num
			if w.branch(w.c.And(w.c.Not(w.c.IntLt(t, w.c.Int(big.NewInt(math.MinInt64)))), w.c.Not(w.c.IntLt(w.c.Int(big.NewInt(math.MaxInt64)), t)))) {
				return Tuple{w.unbv(w.c.Int2BV(t, 64)), Iface{}}
			}
			return Tuple{uint64(math.MaxInt64), mkErr("value out of range")}
		}
		panic(engineError("ParseInt on symbolic text"))
	}
	reg("strconv.Atoi", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value { return parse(w, fr, a[0], 10) })
	reg("strconv.ParseInt", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		return parse(w, fr, a[0], int(w.concInt(a[1])))
	})
	// ---- bytes
	reg("bytes.Equal", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		x, ok1 := a[0].(*BigBytes)
		y, ok2 := a[1].(*BigBytes)
		if ok1 && ok2 {
			return w.unbool(w.c.IntEq(w.absT(x.t), w.absT(y.t)))
		}
		if ok1 != ok2 {
			b, o := x, a[1]
			if ok2 {
				b, o = y, a[0]
			}
			s := w.bytesOf(fr, o)
			if len(s) > 0 {
				if u, ok := s[0].(uint64); ok && u == 0 {
					return false // minimal encodings have no leading zero
				} else if !ok {
					// possible leading zero
					if w.branch(w.c.Eq(w.bv(s[0], 8), w.c.BV(0, 8))) {
						return false
					}
				}
			}
			return w.unbool(w.c.IntEq(w.absT(b.t), w.fromBytes(s)))
		}
		p, q := w.bytesOf(fr, a[0]), w.bytesOf(fr, a[1])
		if len(p) != len(q) {
			return false
		}
		r := w.c.True
		for i := range p {
			w.track(fr, &p[i], false)
			w.track(fr, &q[i], false)
			r = w.c.And(r, w.byteEq(p[i], q[i]))
		}
		return w.unbool(r)
	})
	// ---- sha256 (collision-free model)
	reg("crypto/sha256.New", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		o := &opaqueObj{kind: "sha", data: []Piece(nil)}
		return Iface{shaType, o}
	})
	shaType.methods = map[string]func(fr *frame, args []Value) Value{
		"Write": func(fr *frame, a []Value) Value {
			o := a[0].(*opaqueObj)
			o.data = append(append([]Piece{}, o.data.([]Piece)...), fr.w.hashPieces(fr, a[1])...)
			return Tuple{uint64(0), Iface{}}
		},
		"Sum": func(fr *frame, a []Value) Value {
			w := fr.w
			o := a[0].(*opaqueObj)
			d := w.hash(o.data.([]Piece))
			pre, _ := a[1].(Slice)
			var add []Value
			for _, b := range d {
				add = append(add, uint64(b))
			}
			return w.appendSlice(fr, pre, add, types.Typ[types.Byte])
		},
		"Reset":     func(fr *frame, a []Value) Value { a[0].(*opaqueObj).data = []Piece(nil); return nil },
		"Size":      func(fr *frame, a []Value) Value { return uint64(32) },
		"BlockSize": func(fr *frame, a []Value) Value { return uint64(64) },
	}
	reg("crypto/sha256.Sum256", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		d := w.hash(w.hashPieces(fr, a[0]))
		r := make(Array, 32)
		for i := range d {
			r[i] = uint64(d[i])
		}
		return r
	})
	// ---- sync
	ms := func(w *Worker, fr *frame, v Value) *mutexState {
		return mstate((*w.deref(fr, v)).(*opaqueObj))
	}
	for _, t := range []string{"Mutex", "RWMutex"} {
		reg("(*sync."+t+").Lock", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			w.lock(fr.g, ms(w, fr, a[0]), true)
			return nil
		})
		reg("(*sync."+t+").Unlock", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			w.unlock(fr.g, ms(w, fr, a[0]), true)
			return nil
		})
		reg("(*sync."+t+").TryLock", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			m := ms(w, fr, a[0])
			if m.w != 0 || m.r != 0 {
				return false
			}
			w.lock(fr.g, m, true)
			return true
		})
	}
	reg("(*sync.RWMutex).RLock", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		w.lock(fr.g, ms(w, fr, a[0]), false)
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		w.unlock(fr.g, ms(w, fr, a[0]), false)
		return nil
	})
	type wgState struct {
		n  int64
		vc []int32
	}
	wg := func(w *Worker, fr *frame, v Value) *wgState {
		o := (*w.deref(fr, v)).(*opaqueObj)
		if o.data == nil {
			o.data = &wgState{}
		}
		return o.data.(*wgState)
	}
	wgAdd := func(w *Worker, fr *frame, s *wgState, d int64) {
		s.n += d
		if s.n < 0 {
			w.panicRT(fr, "sync: negative WaitGroup counter")
		}
		if d < 0 {
			fr.g.tick()
			s.vc = vcJoin(vcCopy(s.vc), fr.g.vc)
			fr.g.tick()
		}
		w.sched.preempt(fr.g)
	}
	reg("(*sync.WaitGroup).Add", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		wgAdd(w, fr, wg(w, fr, a[0]), w.cInt64(a[1]))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		wgAdd(w, fr, wg(w, fr, a[0]), -1)
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		s := wg(w, fr, a[0])
		w.sched.preempt(fr.g)
		w.sched.block(fr.g, "WaitGroup.Wait", func() bool { return s.n == 0 })
		fr.g.vc = vcJoin(fr.g.vc, s.vc)
		return nil
	})
	reg("(*sync.Once).Do", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		o := (*w.deref(fr, a[0])).(*opaqueObj)
		if o.data == nil {
			o.data = true
			w.call(fr.g, fr, a[1], nil, 0)
		}
		return nil
	})
	// ---- time, runtime
	for _, n := range []string{"time.Now", "time.Since"} {
		reg(n, func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			return w.zeroResult(fn)
		})
	}
	reg("time.Sleep", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value { w.sched.preempt(fr.g); return nil })
	reg("runtime.Gosched", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value { w.sched.preempt(fr.g); return nil })
	reg("math/rand.Int63n", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		n := w.cInt64(a[0])
		t := w.input("rand", "u", func(nm string) *T { return w.c.Var(nm, 64) }).(*T)
		w.assume(w.c.Lt(t, w.c.BV(uint64(n), 64), false))
		return t
	})
	intrinsics["math/rand.Intn"] = intrinsics["math/rand.Int63n"]
	for n, f := range map[string]func(float64) float64{"Log2": math.Log2, "Log": math.Log, "Ceil": math.Ceil, "Floor": math.Floor, "Sqrt": math.Sqrt, "Abs": math.Abs} {
		f := f
		reg("math."+n, func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value { return f(a[0].(float64)) })
	}
	// ---- sort
	reg("sort.Sort", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value { w.sortIface(fr, a[0], false); return nil })
	reg("sort.Stable", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value { w.sortIface(fr, a[0], true); return nil })
	reg("sort.Slice", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		s := a[0].(Iface).v.(Slice)
		w.insertionSort(len(s), func(i, j int) bool {
			return w.truth(w.call(fr.g, fr, a[1], []Value{uint64(i), uint64(j)}, 0))
		}, func(i, j int) {
			x, y := copyVal(s[i]), copyVal(s[j])
			storeInto(&s[i], y)
			storeInto(&s[j], x)
		})
		return nil
	})
	intrinsics["sort.SliceStable"] = intrinsics["sort.Slice"]
	reg("sort.Ints", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		s, _ := a[0].(Slice)
		w.insertionSort(len(s), func(i, j int) bool {
			return w.branch(w.c.Lt(w.bv(s[i], 64), w.bv(s[j], 64), true))
		}, func(i, j int) { s[i], s[j] = s[j], s[i] })
		return nil
	})
	reg("sort.Strings", func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		s, _ := a[0].(Slice)
		w.insertionSort(len(s), func(i, j int) bool { return w.branch(w.strLess(s[i], s[j])) }, func(i, j int) { s[i], s[j] = s[j], s[i] })
		return nil
	})
}

var shaType = &opaqueType{name: "*sha256.digest"}

func (w *Worker) havePrefix(v Value, p string) bool {
	s, ok := v.(*Str)
	if !ok || len(s.p) < len(p) {
		return false
	}
	for i := 0; i < len(p); i++ {
		if s.p[i].num != nil || s.p[i].opq > 0 {
			return false
		}
		if u, ok := s.p[i].b.(uint64); !ok || byte(u) != p[i] {
			return false
		}
	}
	return true
}

func goStrs(s []string) Value {
	r := make(Slice, len(s))
	for i := range s {
		r[i] = s[i]
	}
	return r
}

func (w *Worker) truth(v Value) bool {
	switch b := v.(type) {
	case bool:
		return b
	case *T:
		return w.branch(b)
	}
	panic(engineError("truth"))
}

// insertionSort: sort.Sort uses insertion sort for up to 12 elements; for
// longer inputs any permutation produced by a correct sort is acceptable.
func (w *Worker) insertionSort(n int, less func(i, j int) bool, swap func(i, j int)) {
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swap(j, j-1)
		}
	}
}

func (w *Worker) sortIface(fr *frame, v Value, stable bool) {
	iv := v.(Iface)
	m := func(name string) Value {
		ms := w.prog.prog.MethodSets.MethodSet(iv.t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return w.prog.prog.MethodValue(ms.At(i))
			}
		}
		panic(engineError("sort: no method " + name))
	}
	ln, ls, sw := m("Len"), m("Less"), m("Swap")
	n := int(w.concInt(w.call(fr.g, fr, ln, []Value{iv.v}, 0)))
	w.insertionSort(n, func(i, j int) bool {
		return w.truth(w.call(fr.g, fr, ls, []Value{iv.v, uint64(i), uint64(j)}, 0))
	}, func(i, j int) { w.call(fr.g, fr, sw, []Value{iv.v, uint64(i), uint64(j)}, 0) })
}

func goBytes(b []byte) Slice {
	r := make(Slice, len(b))
	for i := range b {
		r[i] = uint64(b[i])
	}
	return r
}

func (w *Worker) divT(x *T, d *big.Int, trunc bool) *T {
	c := w.c
	if x.isConst() {
		if trunc {
			return c.Int(new(big.Int).Quo(x.b, d))
		}
		return c.Int(new(big.Int).Div(x.b, d))
	}
	neg := d.Sign() < 0
	ad := new(big.Int).Abs(d)
	if trunc && (x.lo == nil || x.lo.Sign() < 0) && w.branch(c.IntNeg(x)) {
		r := c.Div(c.INeg(x), ad)
		if neg {
			return r
		}
		return c.INeg(r)
	}
	r := c.Div(x, ad)
	if neg {
		r = c.INeg(r)
	}
	return r
}

// fromBytes: big-endian value of bytes. Recognises the digits of one integer.
func (w *Worker) fromBytes(s Slice) *T {
	c := w.c
	// recognise digits of one term
	if t := w.digitsOf(s); t != nil {
		return t
	}
	r := c.Int(new(big.Int))
	// runs of concrete bytes
	for i, v := range s {
		sh := new(big.Int).Lsh(big.NewInt(1), uint(8*(len(s)-1-i)))
		r = c.IAdd(r, c.IMul(c.BV2Int(w.bv(v, 8), false), c.Int(sh)))
	}
	return r
}

func (w *Worker) digitsOf(s Slice) *T {
	c := w.c
	var base *T
	for i, v := range s {
		sh := 8 * (len(s) - 1 - i)
		t, ok := v.(*T)
		if !ok {
			// concrete: must be a zero above the value's range
			if base == nil && v.(uint64) == 0 {
				continue
			}
			return nil
		}
		if t.op != OpI2BV {
			return nil
		}
		in := t.args[0]
		if base == nil {
			// candidate: in = (x div 2^sh) mod 256
			for _, cand := range w.digitBases(in, sh) {
				base = cand
				break
			}
			if base == nil {
				return nil
			}
		}
		want := c.Mod(c.Div(base, new(big.Int).Lsh(big.NewInt(1), uint(sh))), big.NewInt(256))
		if want != in {
			return nil
		}
	}
	if base == nil {
		return nil
	}
	// base must fit
	lim := new(big.Int).Lsh(big.NewInt(1), uint(8*len(s)))
	fits := base.lo != nil && base.lo.Sign() >= 0 && base.hi != nil && base.hi.Cmp(lim) < 0
	if !fits {
		a, _ := w.check(c.IntNeg(base), false)
		b, _ := w.check(c.Not(c.IntLt(base, c.Int(lim))), false)
		fits = a == Unsat && b == Unsat
	}
	if fits {
		// leading concrete zeros must be implied
		for i, v := range s {
			if _, ok := v.(*T); ok {
				break
			}
			l2 := new(big.Int).Lsh(big.NewInt(1), uint(8*(len(s)-1-i)))
			if base.hi == nil || base.hi.Cmp(l2) >= 0 {
				if s, _ := w.check(c.Not(c.IntLt(base, c.Int(l2))), false); s != Unsat {
					return nil
				}
			}
		}
		return base
	}
	return nil
}

// digitBases: possible x with in = (x div 2^sh) mod 256.
func (w *Worker) digitBases(in *T, sh int) []*T {
	c := w.c
	x := in
	if x.op == OpMod && x.b.IsInt64() && x.b.Int64() == 256 && len(x.poly) == 1 && x.poly[0].m.deg == 1 {
		x = c.all[x.poly[0].m.v[0]]
	} else if x.op == OpMod {
		return nil
	}
	if sh == 0 {
		return []*T{x}
	}
	if x.op == OpDiv && x.b.Cmp(new(big.Int).Lsh(big.NewInt(1), uint(sh))) == 0 {
		return []*T{x.args[0]}
	}
	return nil
}

func (w *Worker) numStr(t *T) Value {
	if t.isConst() {
		return t.b.String()
	}
	return &Str{p: []Piece{{num: t}}}
}

func (w *Worker) parseBig(v Value, base int) (*T, bool) {
	switch s := v.(type) {
	case string:
		if t, ok := w.binds[s]; ok && (base == 10 || base == 0) {
			return t, true
		}
		b, ok := new(big.Int).SetString(s, base)
		if !ok {
			return nil, false
		}
		return w.c.Int(b), true
	case *Str:
		if len(s.p) == 1 && s.p[0].num != nil && base == 10 {
			return s.p[0].num, true
		}
		// fork over each byte class
		n, ok := strLen(v)
		if ok && n <= 4 && base == 10 {
			return w.parseDigits(s.p)
		}
	}
	panic(engineError("SetString on symbolic text"))
}

func (w *Worker) parseDigits(p []Piece) (*T, bool) {
	c := w.c
	neg := false
	isB := func(b Value, ch byte) bool { return w.branch(w.byteEq(b, uint64(ch))) }
	if len(p) > 0 {
		if isB(p[0].b, '-') {
			neg = true
			p = p[1:]
		} else if isB(p[0].b, '+') {
			p = p[1:]
		}
	}
	if len(p) == 0 {
		return nil, false
	}
	r := c.Int(new(big.Int))
	for _, x := range p {
		b := w.bv(x.b, 8)
		if !w.branch(c.And(c.Not(c.Lt(b, c.BV('0', 8), false)), c.Not(c.Lt(c.BV('9', 8), b, false)))) {
			return nil, false
		}
		d := c.ISub(c.BV2Int(b, false), c.Int(big.NewInt('0')))
		r = c.IAdd(c.IMul(r, c.Int(big.NewInt(10))), d)
	}
	if neg {
		r = c.INeg(r)
	}
	return r, true
}

// ---- hashing

func (w *Worker) hashPieces(fr *frame, v Value) []Piece {
	switch x := v.(type) {
	case *BigBytes:
		if x.text != nil {
			return x.text
		}
		if x.forced == nil {
			// marker pieces: a number in binary; distinguished from text by the
			// position in the message
			return []Piece{{num: w.absT(x.t)}}
		}
	case *Str:
		return x.p
	}
	s := w.bytesOf(fr, v)
	p := make([]Piece, len(s))
	for i := range s {
		p[i] = Piece{b: s[i]}
	}
	return p
}

// hash: equal messages get equal digests, different messages different ones
// (collision-free model). Symbolic messages fork over equality with the
// messages hashed before on this path.
func (w *Worker) hash(p []Piece) [32]byte {
	conc := true
	var b []byte
	for _, x := range p {
		if u, ok := x.b.(uint64); ok && x.num == nil && x.opq == 0 {
			b = append(b, byte(u))
		} else {
			conc = false
			break
		}
	}
	for _, h := range w.hashes {
		if samePieces(h.in, p) {
			return h.dig
		}
	}
	if conc {
		anySym := false
		for _, h := range w.hashes {
			if !concPieces(h.in) {
				anySym = true
			}
		}
		if !anySym {
			d := sha256.Sum256(b)
			w.hashes = append(w.hashes, hashClass{p, d})
			return d
		}
	}
	for _, h := range w.hashes {
		if conc && concPieces(h.in) {
			continue
		}
		if w.branch(w.hashEq(h.in, p)) {
			return h.dig
		}
	}
	var d [32]byte
	if conc {
		d = sha256.Sum256(b)
	} else {
		d = sha256.Sum256([]byte(fmt.Sprintf("symgo-hash-class-%d", len(w.hashes))))
	}
	w.hashes = append(w.hashes, hashClass{p, d})
	return d
}

func concPieces(p []Piece) bool {
	for _, x := range p {
		if _, ok := x.b.(uint64); !ok || x.num != nil || x.opq > 0 {
			return false
		}
	}
	return true
}

func samePieces(a, b []Piece) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].num != b[i].num || a[i].opq != b[i].opq {
			return false
		}
		if a[i].num == nil && a[i].opq == 0 && a[i].b != b[i].b {
			return false
		}
	}
	return true
}

// hashEq: equality of messages; numbers may be binary encodings, compared
// with literal bytes by value where the shape allows it.
func (w *Worker) hashEq(a, b []Piece) *T {
	return w.piecesEq(a, b)
}

// ---- GCD: for symbolic arguments gcd(a,b)=g with a=g*a', b=g*b' where g,a',b'
// are fresh: only g>0, and that it divides both, is known.
func gcdIntrinsic(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
	x, y := w.big(fr, a[3]), w.big(fr, a[4])
	if p, ok := a[1].(*Value); ok && p != nil {
		panic(engineError("GCD with cofactors"))
	}
	if p, ok := a[2].(*Value); ok && p != nil {
		panic(engineError("GCD with cofactors"))
	}
	if x.isConst() && y.isConst() {
		return w.setBig(fr, a[0], w.c.Int(new(big.Int).GCD(nil, nil, x.b, y.b)))
	}
	// fork: coefficients are drawn from the concrete solutions lazily:
	// zero cases
	c := w.c
	if w.branch(c.IntZero(x)) {
		return w.setBig(fr, a[0], w.absT(y))
	}
	if w.branch(c.IntZero(y)) {
		return w.setBig(fr, a[0], w.absT(x))
	}
	if w.branch(c.IntEq(x, y)) {
		return w.setBig(fr, a[0], w.absT(x))
	}
	one := big.NewInt(1)
	if x.isConst() && x.b.CmpAbs(one) == 0 || y.isConst() && y.b.CmpAbs(one) == 0 {
		return w.setBig(fr, a[0], c.Int(one))
	}
	q := x.fq
	if q == nil {
		q = y.fq
	}
	ok := func(t *T) bool {
		return q != nil && t.lo != nil && t.lo.Sign() >= 0 && t.hi != nil && t.hi.Cmp(q) < 0
	}
	if !ok(x) || !ok(y) {
		panic(engineError("GCD of symbolic integers outside a prime field"))
	}
	if x.id > y.id {
		x, y = y, x
	}
	hi := new(big.Int).Sub(q, one)
	if x.isConst() {
		hi = x.b
	}
	if y.isConst() {
		hi = minB(hi, y.b)
	}
	// the greatest common divisor is some g in [1,q) dividing both; over the
	// field x/g is x*g^-1, and as an integer it is that residue.
	g := c.IntVar(fmt.Sprintf("gcd_%d_%d", x.id, y.id), one, hi, q)
	w.memo[fmt.Sprintf("div:%d:%d", x.id, g.id)] = q
	w.memo[fmt.Sprintf("div:%d:%d", y.id, g.id)] = q
	// chains gcd(z, gcd(x,y)): g divides everything its arguments divide
	for k, v := range w.memo {
		var i, j int
		if n, _ := fmt.Sscanf(k, "div:%d:%d", &i, &j); n == 2 && (int32(j) == x.id || int32(j) == y.id) {
			w.memo[fmt.Sprintf("div:%d:%d", i, g.id)] = v
		}
	}
	return w.setBig(fr, a[0], g)
}

// exactDiv: x div d where d is a recorded symbolic divisor of x.
func (w *Worker) exactDiv(x, d *T) (*T, bool) {
	if d.isConst() {
		return nil, false
	}
	if x == d {
		return w.c.Int(big.NewInt(1)), true
	}
	if qv, ok := w.memo[fmt.Sprintf("div:%d:%d", x.id, d.id)]; ok {
		q := qv.(*big.Int)
		return w.c.Mod(w.c.IMul(x, w.c.Inv(d, q)), q), true
	}
	// x = k*d by construction is not tracked
	return nil, false
}
