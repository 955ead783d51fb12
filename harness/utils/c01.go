package utils

import "math/big"

func c01Range(r *big.Int) bool {
	return r.Sign() >= 0 && r.Cmp(Field.ArithmeticField.Q) < 0
}

//symgo:run C01 both
func HC01_ring() {
	f := Field.ArithmeticField
	a, b := symBigInt("a"), symBigInt("b")
	a0, b0 := new(big.Int).Set(a), new(big.Int).Set(b)
	alias := symBool("alias")
	if alias {
		b, b0 = a, a0
	}
	switch symChoose("op", 8) {
	case 0:
		r := f.Add(a, b)
		symAssert(vEq(r, new(big.Int).Add(a0, b0)), "Add is not a+b mod q")
		symAssert(c01Range(r), "Add not canonical")
		symObserve("r", r)
	case 1:
		r := f.Sub(a, b)
		symAssert(vEq(r, new(big.Int).Sub(a0, b0)), "Sub is not a-b mod q")
		symAssert(c01Range(r), "Sub not canonical")
		symObserve("r", r)
	case 2:
		r := f.Mul(a, b)
		symAssert(vEq(r, new(big.Int).Mul(a0, b0)), "Mul is not a*b mod q")
		symAssert(c01Range(r), "Mul not canonical")
		symObserve("r", r)
	case 3:
		r := f.Neg(a)
		symAssert(vEq(r, new(big.Int).Neg(a0)), "Neg is not -a mod q")
		symObserve("r", r)
	case 4:
		r := f.Double(a)
		symAssert(vEq(r, new(big.Int).Add(a0, a0)), "Double is not 2a mod q")
		symObserve("r", r)
	case 5:
		r := f.Square(a)
		symAssert(vEq(r, new(big.Int).Mul(a0, a0)), "Square is not a^2 mod q")
		symObserve("r", r)
	case 6:
		r := f.MulScalar(a, b)
		symAssert(vEq(r, new(big.Int).Mul(a0, b0)), "MulScalar is not a*b mod q")
		symObserve("r", r)
	case 7:
		r := f.Copy(a)
		symAssert(vEq(r, a0), "Copy is not a mod q")
		r.Add(r, vB(1))
		r = f.Affine(a)
		symAssert(vEq(r, a0), "Affine is not a mod q")
		symObserve("r", r)
	}
	symAssert(a.Cmp(a0) == 0 && b.Cmp(b0) == 0, "operand changed")
}

//symgo:run C01 both
func HC01_equal() {
	f := Field.ArithmeticField
	a, b := symBigInt("a"), symBigInt("b")
	a0, b0 := new(big.Int).Set(a), new(big.Int).Set(b)
	r := f.Equal(a, b)
	symAssert(r == (vMod(a0).Cmp(vMod(b0)) == 0), "Equal is not congruence mod q")
	symAssert(a.Cmp(a0) == 0 && b.Cmp(b0) == 0, "operand changed")
	symObserve("r", r)
	c := symBig("c", f.Q)
	symAssert(f.IsZero(c) == (c.Sign() == 0), "IsZero wrong")
	symAssert(BigIsOdd(c) == (new(big.Int).Mod(c, vB(2)).Sign() != 0), "BigIsOdd wrong")
}

//symgo:run C01 both
func HC01_inverse() {
	f := Field.ArithmeticField
	a, b := symBigInt("a"), symBigInt("b")
	symAssume(vMod(b).Sign() != 0)
	a0, b0 := new(big.Int).Set(a), new(big.Int).Set(b)
	i := f.Inverse(b)
	symAssert(i != nil && c01Range(i), "inverse not canonical")
	symAssert(vMul(i, b0).Cmp(vB(1)) == 0, "inverse is not an inverse")
	d := f.Div(a, b)
	symAssert(c01Range(d), "Div not canonical")
	symAssert(vMul(d, b0).Cmp(vMod(a0)) == 0, "Div(a,b)*b is not a")
	symAssert(a.Cmp(a0) == 0 && b.Cmp(b0) == 0, "operand changed")
	symObserve("d", d)
}

//symgo:run C01 quick p.bits=4
//symgo:run C01 thorough p.bits=7
func HC01_exp() {
	f := Field.ArithmeticField
	a := symBig("a", f.Q)
	n := 1 << uint(symParam("bits", 4))
	e := symInt("e", 0, n-1)
	a0 := new(big.Int).Set(a)
	eb := big.NewInt(int64(e))
	r := f.ExpInt(a, uint(e))
	k := symConcInt(e)
	want := vPow(a0, k)
	symAssert(vEq(r, want), "ExpInt is not repeated multiplication")
	r2 := f.Exp(a, eb)
	symAssert(vEq(r2, want), "Exp is not repeated multiplication")
	symAssert(a.Cmp(a0) == 0 && eb.Cmp(big.NewInt(int64(k))) == 0, "operand changed")
	symObserve("r", r)
}

// exponents below zero, around and above the (here small) modulus
//
//symgo:run C01 both
func HC01_expany() {
	f := NewFq(vB(13))
	a := symChoose("a", 13)
	n := symChoose("e", 91) - 30
	eb := big.NewInt(int64(n))
	symAssume(a != 0 || n >= 0)
	r := f.Exp(vB(int64(a)), eb)
	x := 1
	if n >= 0 {
		for i := 0; i < n; i++ {
			x = x * a % 13
		}
		symAssert(r.Cmp(vB(int64(x))) == 0, "Exp is not repeated multiplication")
	} else {
		for i := 0; i < -n; i++ {
			x = x * a % 13
		}
		symAssert(new(big.Int).Mod(new(big.Int).Mul(r, vB(int64(x))), f.Q).Cmp(vB(1)) == 0, "Exp with a negative exponent is not the inverse power")
	}
	symAssert(eb.Cmp(vB(int64(n))) == 0, "exponent changed")
	symObserve("r", r)
}

// ExpInt takes the whole range of its exponent: every window of bits counts
//
//symgo:run C01 quick p.bits=3
//symgo:run C01 thorough p.bits=5
func HC01_expwide() {
	f := NewFq(vB(10007))
	b := symParam("bits", 3)
	h := symConcInt(symInt("h", 1, 1<<uint(b)-1))
	k := symChoose("k", 65-b)
	e := uint(h)<<uint(k) | uint(symChoose("low", 2))
	a := []int64{5, 10006, 0}[symChoose("a", 3)]
	r := f.ExpInt(vB(a), e)
	r2 := f.Exp(vB(a), new(big.Int).SetUint64(uint64(e)))
	want := int64(1)
	for i := 0; i < h; i++ {
		want = want * a % 10007
	}
	for i := 0; i < k; i++ {
		want = want * want % 10007
	}
	if e != uint(h)<<uint(k) {
		want = want * a % 10007
	}
	symAssert(r.Cmp(vB(want)) == 0, "ExpInt is not repeated multiplication")
	symAssert(r2.Cmp(vB(want)) == 0, "Exp is not repeated multiplication")
}

// exponents of any length, over a modulus of any size
//
//symgo:run C01 both
func HC01_explong() {
	q := []*big.Int{vB(10007), vB(3), Field.ArithmeticField.Q}[symChoose("q", 3)]
	f := NewFq(q)
	top := []uint{64, 127, 128, 255, 257, 512, 513, 1025, 2050}[symChoose("top", 9)]
	low := []int64{0, 1, 5, 1 << 40}[symChoose("low", 4)]
	e := new(big.Int).Lsh(vB(1), top)
	e.Add(e, vB(low))
	e0 := new(big.Int).Set(e)
	want, x := vB(1), vB(2)
	for i := 0; i <= int(top); i++ {
		if e0.Bit(i) != 0 {
			want.Mod(want.Mul(want, x), q)
		}
		x.Mod(x.Mul(x, x), q)
	}
	symAssert(f.Exp(vB(2), e).Cmp(want) == 0, "Exp is not repeated multiplication")
	symAssert(e.Cmp(e0) == 0, "exponent changed")
}

// the same over the real modulus: a^(q+k) = a^(k+1) for fixed bases
//
//symgo:run C01 both
func HC01_expbig() {
	f := Field.ArithmeticField
	a := []*big.Int{vB(2), vB(7), new(big.Int).Sub(f.Q, vB(1)), vB(0)}[symChoose("a", 4)]
	k := symChoose("k", 4)
	e := new(big.Int).Add(f.Q, vB(int64(k)))
	r := f.Exp(a, e)
	symAssert(vEq(r, vPow(a, k+1)), "Exp wrong for an exponent above the modulus")
	symAssert(e.Cmp(new(big.Int).Add(f.Q, vB(int64(k)))) == 0, "exponent changed")
}

//symgo:run C01 both
func HC01_scalarproduct() {
	f := Field.ArithmeticField
	n := symChoose("n", 4)
	a, b := make([]*big.Int, n), make([]*big.Int, n)
	want := vB(0)
	for i := range a {
		a[i], b[i] = symBigInt("a"), symBigInt("b")
		want.Add(want, new(big.Int).Mul(a[i], b[i]))
	}
	a0, b0 := vCopy(a), vCopy(b)
	r := f.ScalarProduct(a, b)
	symAssert(vEq(r, want), "ScalarProduct wrong")
	symAssert(vSame(a, a0) && vSame(b, b0), "operand changed")
	symObserve("r", r)
}

//symgo:run C01 both
func HC01_parse() {
	f := Field.ArithmeticField
	n := symChoose("n", 5)
	buf := make([]byte, n)
	ok := n > 0
	val := vB(0)
	neg := false
	digits := 0
	for i := range buf {
		buf[i] = symByte("c")
	}
	for i, c := range buf {
		if i == 0 && (c == '-' || c == '+') {
			neg = c == '-'
			continue
		}
		if c < '0' || c > '9' {
			ok = false
			break
		}
		digits++
		val.Mul(val, vB(10))
		val.Add(val, vB(int64(c-'0')))
	}
	if digits == 0 {
		ok = false
	}
	if neg {
		val.Neg(val)
	}
	r, s := f.StringToFieldElement(string(buf))
	symAssert(s == ok, "StringToFieldElement accepts or rejects wrongly")
	if ok {
		symAssert(vEq(r, val), "StringToFieldElement wrong value")
	}
	symObserve("ok", s)
}

//symgo:run C01 both
func HC01_rand() {
	f := Field.ArithmeticField
	r, err := f.Rand()
	if err == nil {
		symAssert(c01Range(r), "Rand outside the field")
	}
}
