package bn256

import "math/big"

// a 256-bit word of an encoding
func sW(n string) *big.Int {
	return symBigRange(n, vI(0), new(big.Int).Sub(new(big.Int).Lsh(vI(1), 256), vI(1)))
}

func vJoin(ws ...*big.Int) []byte {
	r := make([]byte, 32*len(ws))
	for i, w := range ws {
		w.FillBytes(r[32*i : 32*i+32])
	}
	return r
}

func vWord(m []byte, i int) *big.Int { return new(big.Int).SetBytes(m[32*i : 32*i+32]) }

func vPairs(a *gfP12) []*big.Int {
	return []*big.Int{a.x.x.x, a.x.x.y, a.x.y.x, a.x.y.y, a.x.z.x, a.x.z.y,
		a.y.x.x, a.y.x.y, a.y.y.x, a.y.y.y, a.y.z.x, a.y.z.y}
}

type bigInt = big.Int

func newBig() *big.Int { return new(big.Int) }
