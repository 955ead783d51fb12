package utils

import "math/big"

// vMix: n coefficients, of which the last and one in the middle are any field
// elements, the others fixed, some of them zero
func vMix(name string, n int) []*big.Int {
	r := make([]*big.Int, n)
	for i := range r {
		switch {
		case i == n/2 || i == n-1:
			r[i] = symBig(name, Field.ArithmeticField.Q)
		case i%5 == 3:
			r[i] = vB(0)
		default:
			r[i] = vB(int64(i*i + 7*len(name) + i))
		}
	}
	return r
}

// vSize: one of the sizes around a power of two, up to about max
func vSize(name string, max int) int {
	var l []int
	for _, n := range []int{8, 9, 16, 17, 32, 33, 64, 65, 127, 129, 257} {
		if n <= max {
			l = append(l, n)
		}
	}
	return l[symChoose(name, len(l))]
}
