//sym:dir primitive/lrs
//sym:use common/lrs.go
package lrs

import (
	"strconv"

	vs "zRep/verifsym"
)

func symHonest(max int) {
	base := symBase()
	n := vs.Choose("n", max) + 1
	pi := vs.Choose("pi", n)
	x, y := symRing(base, n)
	m := vs.Bytes("m", vs.Choose("len", 4))
	sig := base.Sign(m, n, pi, x[pi], y)
	vs.Assert("one part per member", len(sig.S) == n && len(sig.C) == n)
	verifier := CreateBase(base.G)
	vs.Assert("verifies", verifier.Verify(m, n, 0, sig, y))
	vs.Assert("verifies again", base.Verify(m, n, pi, sig, y))
	sent := ProtobufDecodeSignature(ProtobufEncodeSignature(sig))
	vs.Assert("verifies after transmission", verifier.Verify(m, n, 0, sent, y))
	sig2 := base.Sign(m, n, pi, x[pi], y)
	vs.Assert("second verifies", verifier.Verify(m, n, 0, sig2, y) && verifier.Verify(m, n, 0, sig, y))
	vs.Reach("ring of " + strconv.Itoa(n))
}

func Sym_C15_honest()       { symHonest(3) }
func SymT_C15_honest_more() { symHonest(6) }
