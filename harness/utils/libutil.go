package utils

import "math/big"

func vB(n int64) *big.Int { return big.NewInt(n) }

func vCopy(a []*big.Int) []*big.Int {
	r := make([]*big.Int, len(a))
	for i, x := range a {
		r[i] = new(big.Int).Set(x)
	}
	return r
}

func vSame(a, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

func vMod(x *big.Int) *big.Int { return new(big.Int).Mod(x, Field.ArithmeticField.Q) }
func vMul(x, y *big.Int) *big.Int {
	return vMod(new(big.Int).Mul(x, y))
}
func vAdd(x, y *big.Int) *big.Int {
	return vMod(new(big.Int).Add(x, y))
}
func vSub(x, y *big.Int) *big.Int {
	return vMod(new(big.Int).Sub(x, y))
}

// vEq: r is the canonical representative of x
func vEq(r, x *big.Int) bool {
	return r != nil && r.Cmp(vMod(x)) == 0
}

// vPow: x^n by definition
func vPow(x *big.Int, n int) *big.Int {
	r := vB(1)
	for i := 0; i < n; i++ {
		r = vMul(r, x)
	}
	return r
}

// vEval: sum of a[i]*x^i
func vEval(a []*big.Int, x *big.Int) *big.Int {
	s := vB(0)
	for i, c := range a {
		s = vAdd(s, vMul(c, vPow(x, i)))
	}
	return s
}

// vPolMul: schoolbook convolution
func vPolMul(a, b []*big.Int) []*big.Int {
	if len(a) == 0 || len(b) == 0 {
		return nil
	}
	r := make([]*big.Int, len(a)+len(b)-1)
	for i := range r {
		r[i] = vB(0)
	}
	for i := range a {
		for j := range b {
			r[i+j] = vAdd(r[i+j], vMul(a[i], b[j]))
		}
	}
	return r
}

func vCoef(a []*big.Int, i int) *big.Int {
	if i < len(a) {
		return a[i]
	}
	return vB(0)
}

// vPolEq: a and b represent the same polynomial, all coefficients of a canonical
func vPolEq(a, b []*big.Int) bool {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if !vEq(vCoef(a, i), vCoef(b, i)) {
			return false
		}
	}
	return true
}

// vVec: n symbolic field elements
func vVec(name string, n int) []*big.Int {
	r := make([]*big.Int, n)
	for i := range r {
		r[i] = symBig(name+string(rune('0'+i)), Field.ArithmeticField.Q)
	}
	return r
}
