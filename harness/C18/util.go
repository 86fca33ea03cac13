//sym:dir util
package util

import (
	"github.com/dedis/crypto/nist"
	vs "zRep/verifsym"
)

func Sym_C18_roundtrip() {
	suite := nist.NewAES128SHA256QR512()
	x := vs.AnySecret(suite, "x")
	pk := suite.Point().Mul(nil, x)
	m := suite.Point().Mul(nil, vs.AnySecret(suite, "m"))
	orig := suite.Point().Add(m, suite.Point().Null())
	K, C, _ := ElGamalEncrypt(suite, pk, m)
	vs.Assert("message unchanged", m.Equal(orig))
	vs.Assert("decrypts", ElGamalDecrypt(suite, x, K, C).Equal(m))
	K2, C2, _ := ElGamalEncrypt(suite, pk, m)
	vs.Assert("second decrypts", ElGamalDecrypt(suite, x, K2, C2).Equal(m))
	vs.Assert("fresh ephemeral key", !K.Equal(K2))
	vs.Assert("first still decrypts", ElGamalDecrypt(suite, x, K, C).Equal(m))
}

func Sym_C18_other_key() {
	suite := nist.NewAES128SHA256QR512()
	x := vs.Secret(suite, "x")
	y := vs.AnySecret(suite, "y")
	vs.Assume(!x.Equal(y))
	pk := suite.Point().Mul(nil, x)
	m := suite.Point().Mul(nil, vs.AnySecret(suite, "m"))
	K, C, _ := ElGamalEncrypt(suite, pk, m)
	vs.Assert("other key", !ElGamalDecrypt(suite, y, K, C).Equal(m))
	vs.Assert("ciphertext hides", !C.Equal(m))
}

// layered encryption as used for registrations: each layer removed by its own key
func Sym_C18_layers() {
	suite := nist.NewAES128SHA256QR512()
	x1, x2 := vs.AnySecret(suite, "x1"), vs.AnySecret(suite, "x2")
	m := suite.Point().Mul(nil, vs.AnySecret(suite, "m"))
	K1, C1, _ := ElGamalEncrypt(suite, suite.Point().Mul(nil, x1), m)
	K2, C2, _ := ElGamalEncrypt(suite, suite.Point().Mul(nil, x2), C1)
	in := ElGamalDecrypt(suite, x2, K2, C2)
	vs.Assert("outer layer", in.Equal(C1))
	vs.Assert("inner layer", ElGamalDecrypt(suite, x1, K1, in).Equal(m))
}
