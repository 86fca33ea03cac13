//sym:dir cmd/coordinator
//sym:use common/wcoord.go
package coordinator

import (
	vs "zRep/verifsym"

	"zRep/util"
)

func Sym_C14_coordinator() {
	c := SymNew("127.0.0.1:1000")
	m := vs.Bytes("m", vs.Choose("len", 3))
	sig := c.SignMessage(m)
	vs.Assert("own key", util.ElGamalVerify(c.Suite, m, c.PublicKey, sig, nil) == nil)
	z := vs.AnySecret(c.Suite, "z")
	pk := c.Suite.Point().Mul(nil, z)
	vs.Assume(!pk.Equal(c.PublicKey))
	vs.Assert("any other key", util.ElGamalVerify(c.Suite, m, pk, sig, nil) != nil)
	other := util.ElGamalSign(c.Suite, c.Suite.Cipher([]byte("x")), m, z, nil)
	vs.Assert("made with another key", util.ElGamalVerify(c.Suite, m, c.PublicKey, other, nil) != nil)
}
