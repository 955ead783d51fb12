package circuitcompiler

import (
	"math/big"

	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
)

// k -> abscissa of k*G as an uninterpreted function: equal scalars (modulo the
// group order) give equal values, zero gives zero. The arithmetic itself is the
// subject of C10.

type vSbmEntry struct{ k, x *big.Int }

var vSbmArg = map[*bn256.G1]*big.Int{}
var vSbmTab []vSbmEntry

//symgo:model (*@/pairing.G1).ScalarBaseMult vSbmMul
func vSbmMul(e *bn256.G1, k *big.Int) *bn256.G1 {
	vSbmArg[e] = vMod(k)
	return e
}

//symgo:model (*@/pairing.G1).X vSbmX
func vSbmX(e *bn256.G1) *big.Int {
	k := vSbmArg[e]
	if k.Sign() == 0 {
		return vB(0)
	}
	for _, t := range vSbmTab {
		if t.k.Cmp(k) == 0 {
			return t.x
		}
	}
	v := symBig("sbm", vQ())
	vSbmTab = append(vSbmTab, vSbmEntry{k, v})
	return v
}
