package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Values of the interpreter.
//
//	integers     uint64 (masked to the width of the type) or *T (bit-vector)
//	bool         bool or *T (width 0)
//	float        float64
//	string       string or *Str (symbolic pieces)
//	slice        Slice (nil Slice = nil slice); []byte may also be *BigBytes
//	array        Array
//	struct       Struct
//	pointer      *Value (nil = nil pointer)
//	map          *MapV
//	chan         *ChanV
//	func         *Closure, *ssa.Function, *ssa.Builtin or Native
//	interface    Iface
//	tuple        Tuple
//	math/big.Int the cell holds *T of sort Int (constant or symbolic)
type Value = any

type Slice []Value
type Array []Value
type Struct []Value
type Tuple []Value
type Iface struct {
	t types.Type
	v Value
}
type Closure struct {
	fn  *ssa.Function
	env []Value
}
type Native struct {
	name string
	f    func(fr *frame, args []Value) Value
}

// Str is a string with symbolic content: a sequence of pieces.
// A piece is either one byte (bv8 term or concrete), or the decimal
// representation of an integer term.
type Str struct {
	p []Piece
}
type Piece struct {
	b   Value // uint64 or *T(8): a byte
	num *T    // decimal representation of this Int term
	opq int   // >0: opaque text of unknown content (never inspected)
}

type MapV struct {
	keys []Value
	vals []Value
	idx  map[any]int // concrete keys
	sym  bool
	n    int // live entries
	dead []bool
	id   int
}

type opaqueObj struct {
	kind string
	data any
}

// BigBytes is the byte slice of a symbolic big.Int (big-endian, minimal).
type BigBytes struct {
	text   []Piece // instead of t: bytes of a text with symbolic numbers
	t      *T
	forced Slice
}

func mustDeref(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem()
}

func namedPath(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return ""
}

func intWidth(b *types.Basic) (int, bool, bool) { // width, signed, isInt
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func typeInt(t types.Type) (int, bool, bool) {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return intWidth(b)
	}
	return 0, false, false
}

func (w *Worker) zero(t types.Type) Value {
	switch namedPath(t) {
	case "math/big.Int":
		return w.c.Int(new(big.Int))
	case "strings.Builder":
		return &opaqueObj{kind: "builder"}
	case "sync.RWMutex", "sync.Mutex":
		return &opaqueObj{kind: "mutex"}
	case "sync.WaitGroup", "sync.Once", "sync.Pool", "bytes.Buffer", "math/rand.Rand":
		return &opaqueObj{kind: namedPath(t)}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.Bool || u.Kind() == types.UntypedBool:
			return false
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsInteger != 0:
			return uint64(0)
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case u.Kind() == types.UntypedNil:
			return nil
		}
		panic(engineError("zero: " + t.String()))
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Array:
		a := make(Array, u.Len())
		for i := range a {
			a[i] = w.zero(u.Elem())
		}
		return a
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = w.zero(u.Field(i).Type())
		}
		return s
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return nil
	case *types.Interface:
		return Iface{}
	case *types.Tuple:
		if u.Len() == 1 {
			return w.zero(u.At(0).Type())
		}
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = w.zero(u.At(i).Type())
		}
		return r
	}
	panic(engineError("zero: " + t.String()))
}

// copyVal copies aggregates (value semantics).
func copyVal(v Value) Value {
	switch x := v.(type) {
	case Array:
		r := make(Array, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	case Struct:
		r := make(Struct, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	}
	return v
}

// storeInto keeps addresses of sub-objects stable.
func storeInto(dst *Value, v Value) {
	switch x := v.(type) {
	case Array:
		if d, ok := (*dst).(Array); ok && len(d) == len(x) {
			for i := range x {
				storeInto(&d[i], x[i])
			}
			return
		}
		*dst = copyVal(v)
	case Struct:
		if d, ok := (*dst).(Struct); ok && len(d) == len(x) {
			for i := range x {
				storeInto(&d[i], x[i])
			}
			return
		}
		*dst = copyVal(v)
	default:
		*dst = v
	}
}

// ---- strings

func strLen(v Value) (int, bool) {
	switch s := v.(type) {
	case string:
		return len(s), true
	case *Str:
		for _, p := range s.p {
			if p.num != nil || p.opq > 0 {
				return 0, false
			}
		}
		return len(s.p), true
	}
	panic(engineError(fmt.Sprintf("strLen %T", v)))
}

func toPieces(v Value) []Piece {
	switch s := v.(type) {
	case string:
		r := make([]Piece, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = Piece{b: uint64(s[i])}
		}
		return r
	case *Str:
		return s.p
	}
	panic(engineError(fmt.Sprintf("toPieces %T", v)))
}

func fromPieces(p []Piece) Value {
	conc := true
	for _, x := range p {
		if x.num != nil || x.opq > 0 {
			conc = false
			break
		}
		if _, ok := x.b.(uint64); !ok {
			conc = false
			break
		}
	}
	if conc {
		var sb strings.Builder
		for _, x := range p {
			sb.WriteByte(byte(x.b.(uint64)))
		}
		return sb.String()
	}
	return &Str{p: p}
}

func strConcat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	p := append(append([]Piece{}, toPieces(a)...), toPieces(b)...)
	return fromPieces(p)
}

// strEq returns the Bool term for equality.
func (w *Worker) strEq(a, b Value) *T {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return w.c.Bool(x == y)
	}
	pa, pb := toPieces(a), toPieces(b)
	return w.piecesEq(pa, pb)
}

func hasComplex(p []Piece) bool {
	for _, x := range p {
		if x.num != nil || x.opq > 0 {
			return true
		}
	}
	return false
}

func (w *Worker) piecesEq(pa, pb []Piece) *T {
	c := w.c
	r := c.True
	for {
		// strip common prefix of byte pieces
		if len(pa) == 0 && len(pb) == 0 {
			return r
		}
		if len(pa) == 0 || len(pb) == 0 {
			rest := pa
			if len(pa) == 0 {
				rest = pb
			}
			for _, x := range rest {
				if x.opq > 0 {
					panic(engineError("comparison of opaque string"))
				}
				_ = x
			}
			return c.False // numbers have at least one digit
		}
		x, y := pa[0], pb[0]
		if x.opq > 0 || y.opq > 0 {
			if x.opq == y.opq {
				pa, pb = pa[1:], pb[1:]
				continue
			}
			panic(engineError("comparison of opaque string"))
		}
		if x.num == nil && y.num == nil {
			e := w.byteEq(x.b, y.b)
			r = c.And(r, e)
			if r == c.False {
				return r
			}
			pa, pb = pa[1:], pb[1:]
			continue
		}
		if x.num != nil && y.num != nil {
			// both numbers: followed by the same non-digit delimiter or end
			if delim(pa[1:]) && delim(pb[1:]) {
				r = c.And(r, c.IntEq(x.num, y.num))
				if r == c.False {
					return r
				}
				pa, pb = pa[1:], pb[1:]
				continue
			}
			panic(engineError("comparison of adjacent symbolic numbers"))
		}
		// number against literal digits
		num, lit := x, pb
		pn := pa
		if y.num != nil {
			num, lit, pn = y, pa, pb
		}
		if !delim(pn[1:]) {
			panic(engineError("comparison of symbolic number without delimiter"))
		}
		// collect literal digits
		n := 0
		var sb strings.Builder
		for n < len(lit) && lit[n].num == nil && lit[n].opq == 0 {
			u, ok := lit[n].b.(uint64)
			if !ok {
				panic(engineError("comparison of symbolic number with symbolic byte"))
			}
			if (u >= '0' && u <= '9') || (n == 0 && u == '-') {
				sb.WriteByte(byte(u))
				n++
				continue
			}
			break
		}
		if n < len(lit) && lit[n].num != nil {
			panic(engineError("comparison of symbolic number misaligned"))
		}
		d := sb.String()
		bi, ok := new(big.Int).SetString(d, 10)
		if !ok || bi.String() != d {
			return c.False
		}
		r = c.And(r, c.IntEq(num.num, c.Int(bi)))
		if r == c.False {
			return r
		}
		pa, pb = pn[1:], lit[n:]
	}
}

func delim(p []Piece) bool {
	if len(p) == 0 {
		return true
	}
	if p[0].num != nil || p[0].opq > 0 {
		return false
	}
	u, ok := p[0].b.(uint64)
	return ok && !(u >= '0' && u <= '9')
}

func (w *Worker) byteEq(a, b Value) *T {
	return w.c.Eq(w.bv(a, 8), w.bv(b, 8))
}

func (w *Worker) bv(v Value, width int) *T {
	switch x := v.(type) {
	case uint64:
		return w.c.BV(x, width)
	case *T:
		return x
	}
	panic(engineError(fmt.Sprintf("bv of %T", v)))
}

func (w *Worker) unbv(t *T) Value {
	if t.isConst() {
		return t.u
	}
	return t
}

func (w *Worker) unbool(t *T) Value {
	if t.isConst() {
		return t.u != 0
	}
	return t
}

func (w *Worker) boolT(v Value) *T {
	switch x := v.(type) {
	case bool:
		return w.c.Bool(x)
	case *T:
		return x
	}
	panic(engineError(fmt.Sprintf("boolT of %T", v)))
}
