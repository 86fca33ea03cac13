//sym:dir util
package util

import (
	"bytes"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/random"
	vs "zRep/verifsym"
)

func symSig(suite abstract.Suite, c, r abstract.Secret) []byte {
	buf := bytes.Buffer{}
	abstract.Write(&buf, &basicSig{c, r}, suite)
	return buf.Bytes()
}

// without the key and without any signature, nothing verifies
func Sym_C12_forge_from_nothing() {
	suite := nist.NewAES128SHA256QR512()
	g := suite.Point().Mul(nil, vs.Secret(suite, "base"))
	x := vs.Secret(suite, "x")
	pk := suite.Point().Mul(g, x)
	m := vs.Bytes("m", 2)
	sig := symSig(suite, vs.AdvSecret(suite, "c"), vs.AdvSecret(suite, "r"))
	vs.Assert("forgery", ElGamalVerify(suite, m, pk, sig, g) != nil)
}

// with a signature on another message, the forger combining what it saw
func Sym_C12_forge_after_signature() {
	suite := nist.NewAES128SHA256QR512()
	g := suite.Point().Mul(nil, vs.Secret(suite, "base"))
	x := vs.Secret(suite, "x")
	pk := suite.Point().Mul(g, x)
	m := vs.Bytes("m", vs.Choose("len", 3))
	sig := ElGamalSign(suite, random.Stream, m, x, g)
	s := basicSig{}
	abstract.Read(bytes.NewBuffer(sig), &s, suite)
	m2 := vs.Bytes("n", vs.Choose("len2", 3))
	vs.Assume(!bytes.Equal(m, m2))
	// any affine use of the genuine response
	c2 := suite.Secret().Add(vs.AdvSecret(suite, "c0"), suite.Secret().Mul(vs.AdvSecret(suite, "c1"), s.R))
	r2 := suite.Secret().Add(vs.AdvSecret(suite, "r0"), suite.Secret().Mul(vs.AdvSecret(suite, "r1"), s.R))
	vs.Reach("forging")
	vs.Assert("forgery", ElGamalVerify(suite, m2, pk, symSig(suite, c2, r2), g) != nil)
}

// a genuine signature does not carry over to another message, key or base
func Sym_C12_transfer() {
	suite := nist.NewAES128SHA256QR512()
	gb := vs.Secret(suite, "base")
	g := suite.Point().Mul(nil, gb)
	x := vs.Secret(suite, "x")
	pk := suite.Point().Mul(g, x)
	m := vs.Bytes("m", vs.Choose("len", 3))
	sig := ElGamalSign(suite, random.Stream, m, x, g)
	switch vs.Choose("what", 3) {
	case 0:
		m2 := vs.Bytes("n", vs.Choose("len2", 3))
		vs.Assume(!bytes.Equal(m, m2))
		vs.Assert("other message", ElGamalVerify(suite, m2, pk, sig, g) != nil)
	case 1:
		x2 := vs.AnySecret(suite, "x2")
		vs.Assume(!x2.Equal(x))
		vs.Assert("other key", ElGamalVerify(suite, m, suite.Point().Mul(g, x2), sig, g) != nil)
	case 2:
		b2 := vs.AnySecret(suite, "b2")
		vs.Assume(!b2.Equal(gb))
		vs.Assert("other base", ElGamalVerify(suite, m, pk, sig, suite.Point().Mul(nil, b2)) != nil)
	}
}

// long messages count to their last byte
func Sym_C12_long() {
	suite := nist.NewAES128SHA256QR512()
	g := suite.Point().Mul(nil, vs.Secret(suite, "base"))
	x := vs.Secret(suite, "x")
	pk := suite.Point().Mul(g, x)
	n := []int{33, 130, 700}[vs.Choose("len", 3)]
	m := vs.Bytes("m", n)
	sig := ElGamalSign(suite, random.Stream, m, x, g)
	m2 := append([]byte{}, m...)
	at := []int{0, n / 2, n - 1}[vs.Choose("at", 3)]
	m2[at] = vs.Bytes("n", 1)[0]
	vs.Assume(m2[at] != m[at])
	vs.Assert("other message", ElGamalVerify(suite, m2, pk, sig, g) != nil)
	vs.Assert("shortened", ElGamalVerify(suite, m[:n-1], pk, sig, g) != nil)
}

// changing either component, or the length, is noticed
func Sym_C12_tamper() {
	suite := nist.NewAES128SHA256QR512()
	g := suite.Point().Mul(nil, vs.Secret(suite, "base"))
	x := vs.Secret(suite, "x")
	pk := suite.Point().Mul(g, x)
	m := vs.Bytes("m", 2)
	sig := ElGamalSign(suite, random.Stream, m, x, g)
	s := basicSig{}
	abstract.Read(bytes.NewBuffer(sig), &s, suite)
	d := vs.AnySecret(suite, "d")
	vs.Assume(d.(*nist.Int).Nonzero())
	switch vs.Choose("what", 4) {
	case 0:
		sig = symSig(suite, suite.Secret().Add(s.C, d), s.R)
	case 1:
		sig = symSig(suite, s.C, suite.Secret().Add(s.R, d))
	case 2:
		sig = sig[:64]
	case 3:
		sig = nil
	}
	vs.Assert("tampered", ElGamalVerify(suite, m, pk, sig, g) != nil)
}

// two signatures of the same message differ and do not expose the key
func Sym_C12_nonce() {
	suite := nist.NewAES128SHA256QR512()
	g := suite.Point().Mul(nil, vs.Secret(suite, "base"))
	x := vs.Secret(suite, "x")
	m := vs.Bytes("m", 2)
	a, b := basicSig{}, basicSig{}
	abstract.Read(bytes.NewBuffer(ElGamalSign(suite, random.Stream, m, x, g)), &a, suite)
	abstract.Read(bytes.NewBuffer(ElGamalSign(suite, random.Stream, m, x, g)), &b, suite)
	// x = (ra - rb) / (cb - ca) would follow from equal nonces
	l := suite.Secret().Mul(x, suite.Secret().Sub(b.C, a.C))
	vs.Assert("nonces differ", !l.Equal(suite.Secret().Sub(a.R, b.R)))
}
