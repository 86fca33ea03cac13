//sym:dir primitive/lrs
package lrs

import (
	"math/big"
	"strconv"

	vs "zRep/verifsym"
)

func Sym_C23_ring() {
	m := new(big.Int).Lsh(big.NewInt(1), 1024)
	any := func(n string) *big.Int { return vs.Big(n, new(big.Int).Neg(m), m) }
	k := vs.Choose("members", 4)
	a := &Signature{Y0: any("y")}
	for i := 0; i < k; i++ {
		a.S = append(a.S, any("s"+strconv.Itoa(i)))
		a.C = append(a.C, any("c"+strconv.Itoa(i)))
	}
	b := ProtobufDecodeSignature(ProtobufEncodeSignature(a))
	vs.Assert("image", b.Y0.Cmp(a.Y0) == 0)
	vs.Assert("members", len(b.S) == k && len(b.C) == k)
	for i := range b.S {
		vs.Assert("response", b.S[i].Cmp(a.S[i]) == 0)
		vs.Assert("challenge", b.C[i].Cmp(a.C[i]) == 0)
	}
}
