package bn256

import (
	"bytes"
	"crypto/rand"
	"errors"
	"io"
	"math/big"
)

// random points: any numbers come from the source of randomness, zero at most
// three times in a row; scalar multiplication is decided by HC10_mul and HC10_api

var m10Zeros int

//symgo:model crypto/rand.Int m10Rand
func m10Rand(r io.Reader, max *big.Int) (*big.Int, error) {
	if max.Sign() <= 0 {
		panic("no range")
	}
	if symBool("fails") {
		return nil, errors.New("no more random bytes")
	}
	k := symBigRange("rand", vI(0), new(big.Int).Sub(max, vI(1)))
	if k.Sign() == 0 {
		m10Zeros++
		symAssume(m10Zeros < 3)
	}
	return k, nil
}

//symgo:model (*@/pairing.G1).ScalarBaseMult m10Base
func m10Base(e *G1, k *big.Int) *G1 {
	e.p = &curvePoint{new(big.Int).Mod(k, Order), vI(7), vI(1), vI(7)}
	return e
}

//symgo:model (*@/pairing.G2).ScalarBaseMult m10Base2
func m10Base2(e *G2, k *big.Int) *G2 {
	e.p = &twistPoint{&gfP2{new(big.Int).Mod(k, Order), vI(7)}, &gfP2{vI(7), vI(7)}, &gfP2{vI(0), vI(1)}, &gfP2{vI(0), vI(1)}}
	return e
}

//symgo:run C10 both group=rnd time=60 samples=0
func HC10_random() {
	if symNative() {
		n10Random()
		return
	}
	m10Zeros = 0
	if symBool("g1") {
		k, e, err := RandomG1(nil)
		symAssert((err == nil) == (e != nil) && (err == nil) == (k != nil), "RandomG1: error and result")
		if err == nil {
			symAssert(k.Sign() > 0 && k.Cmp(Order) < 0, "RandomG1: the scalar is no random non-zero scalar")
			symAssert(e.p.x.Cmp(k) == 0, "RandomG1: another multiple of the generator")
		}
		return
	}
	k, e, err := RandomG2(nil)
	symAssert((err == nil) == (e != nil) && (err == nil) == (k != nil), "RandomG2: error and result")
	if err == nil {
		symAssert(k.Sign() > 0 && k.Cmp(Order) < 0, "RandomG2: the scalar is no random non-zero scalar")
		symAssert(e.p.x.x.Cmp(k) == 0, "RandomG2: another multiple of the generator")
	}
}

func n10Random() {
	for _, tail := range [][]byte{{1}, {0, 1}, {0, 0, 1, 9}, {5, 77}, {}} {
		src := make([]byte, 64)
		for _, b := range tail {
			blk := make([]byte, 32)
			blk[31] = b
			src = append(src, blk...)
		}
		k1, e1, err1 := RandomG1(bytes.NewReader(src))
		k2, e2, err2 := RandomG2(bytes.NewReader(src))
		symAssert((err1 == nil) == (len(tail) > 0) && (err2 == nil) == (len(tail) > 0), "RandomG1: error and result")
		if err1 != nil || err2 != nil {
			continue
		}
		symAssert(k1.Sign() > 0 && k2.Sign() > 0, "RandomG1: the scalar is no random non-zero scalar")
		symAssert(e1.String() == new(G1).ScalarBaseMult(k1).String(), "RandomG1: another multiple of the generator")
		w := new(G2).ScalarBaseMult(k2)
		symAssert(bytes.Equal(e2.Marshal(), w.Marshal()), "RandomG2: another multiple of the generator")
	}
	for i := 0; i < 20; i++ {
		k, e, err := RandomG1(rand.Reader)
		symAssert(err == nil && k.Sign() > 0 && k.Cmp(Order) < 0, "RandomG1: the scalar is no random non-zero scalar")
		symAssert(e.String() == new(G1).ScalarBaseMult(k).String(), "RandomG1: another multiple of the generator")
	}
}
