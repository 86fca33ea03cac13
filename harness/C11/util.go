//sym:dir util
package util

import (
	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/random"
	vs "zRep/verifsym"
)

// every honest signature verifies
func Sym_C11_sign_verify() {
	suite := nist.NewAES128SHA256QR512()
	g := suite.Point().Mul(nil, vs.Secret(suite, "base"))
	x := vs.AnySecret(suite, "x")
	pk := suite.Point().Mul(g, x)
	m := vs.Bytes("m", vs.Choose("len", 4))
	sig := ElGamalSign(suite, random.Stream, m, x, g)
	vs.Reach("signed")
	vs.Assert("accepted", ElGamalVerify(suite, m, pk, sig, g) == nil)
	// unchanged key and a second message
	m2 := vs.Bytes("n", vs.Choose("len2", 2))
	sig2 := ElGamalSign(suite, random.Stream, m2, x, g)
	vs.Assert("second accepted", ElGamalVerify(suite, m2, pk, sig2, g) == nil)
	vs.Assert("first still accepted", ElGamalVerify(suite, m, pk, sig, g) == nil)
}

// the standard base point, and a nonce stream keyed by data
func Sym_C11_streams() {
	suite := nist.NewAES128SHA256QR512()
	x := vs.AnySecret(suite, "x")
	pk := suite.Point().Mul(nil, x)
	m := vs.Bytes("m", 2)
	g := suite.Point().Base()
	sig := ElGamalSign(suite, suite.Cipher([]byte("key")), m, x, g)
	vs.Assert("accepted with a keyed stream", ElGamalVerify(suite, m, pk, sig, g) == nil)
	sig = ElGamalSign(suite, suite.Cipher(nil), m, x, g)
	vs.Assert("accepted with a random cipher", ElGamalVerify(suite, m, pk, sig, g) == nil)
}
