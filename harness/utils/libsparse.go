package utils

import "math/big"

// c06Sparse: the sparse form of a vector, built entry by entry from the middle,
// so that nodes have left and right children
func c06Sparse(a []*big.Int) *AvlTree {
	t := NewAvlTree()
	m := len(a) / 2
	for d := 0; d <= len(a); d++ {
		for _, i := range []int{m - d, m + d} {
			if i >= 0 && i < len(a) && a[i].Sign() != 0 {
				if _, e := t.Get(uint(i)); e != nil {
					t.Insert(uint(i), new(big.Int).Set(a[i]))
				}
			}
		}
	}
	return t
}

// c06Is: t stores exactly the non-zero coefficients of want, canonically
func c06Is(t *AvlTree, want []*big.Int, what string) {
	n := 0
	for i, w := range want {
		w = vMod(w)
		v, e := t.Get(uint(i))
		if w.Sign() == 0 {
			symAssert(e != nil, what+": a zero coefficient is stored")
		} else {
			n++
			symAssert(e == nil && v.Cmp(w) == 0, what+": coefficient wrong or not canonical")
		}
	}
	symAssert(t.Size() == n, what+": extra entries")
}

func c06Pad(a []*big.Int, n int) []*big.Int {
	r := make([]*big.Int, n)
	for i := range r {
		r[i] = vCoef(a, i)
	}
	return r
}
