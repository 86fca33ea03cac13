import sys; sys.path.insert(0, '/verif/tools')
from mkseed import seed
FO='primitive/fujiokam/FujiOkamCommitment.go'
seed('c06-hash', 'C06', 'primitive/fujiokam', [
 (FO, '''	h := sha256.New()
	h.Write(commitx.V.Bytes())
	h.Write(C.V.Bytes())
	h.Write(Cr.V.Bytes())
	h.Write(commitrx.V.Bytes())
	eBuf := h.Sum(nil)
	e := new(big.Int)
	e.SetBytes(eBuf)
	// x' ''', '''	h := sha256.New()
	h.Write(commitx.V.Bytes())
	h.Write(C.V.Bytes())
	h.Write(commitrx.V.Bytes())
	eBuf := h.Sum(nil)
	e := new(big.Int)
	e.SetBytes(eBuf)
	// x' '''),
 (FO, '''	h.Write(C.V.Bytes())
	h.Write(Cr.V.Bytes())
	h.Write(commitrx.V.Bytes())
	eBuf := h.Sum(nil)
	e := new(big.Int)
	e.SetBytes(eBuf)
	// delta' ''', '''	h.Write(C.V.Bytes())
	h.Write(commitrx.V.Bytes())
	eBuf := h.Sum(nil)
	e := new(big.Int)
	e.SetBytes(eBuf)
	// delta' '''),
], '''package fujiokam

import (
	"crypto/sha256"
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	base := CreateBase()
	x := big.NewInt(-5)
	comm, r := base.Commit(x)
	rx, rrx := base.genRandomSecret(), base.genRandomSecret()
	crx := base.CommitWithR(rx, rrx)
	C := base.Point().Exp(base.G2, big.NewInt(7))
	h := sha256.New()
	h.Write(comm.V.Bytes())
	h.Write(C.V.Bytes())
	h.Write(crx.V.Bytes())
	e := new(big.Int).SetBytes(h.Sum(nil))
	x_ := new(big.Int).Mul(x, e)
	x_.Add(x_, rx)
	R := new(big.Int).Mul(r, e)
	R.Add(R, rrx)
	// a' = b' = d' = r' = 0, and Cr := Rside / C^e
	delta := new(big.Int).Mul(big.NewInt(4), x_)
	delta.Add(delta, e).Mul(delta, e)
	z := big.NewInt(0)
	rs := base.Point().Exp(base.G2, x_)
	rs.Mul(rs, base.Point().Exp(base.G6, delta))
	inv := base.Point().Exp(C, new(big.Int).Neg(e))
	Cr := base.Point().Mul(rs, inv)
	arg := &ARGnonneg{Commitrx: &crx.V, C: &C.V, Cr: &Cr.V, R: R, X_: x_, A_: z, B_: z, D_: z, R_: z}
	if base.VerifyNonneg(comm, arg) {
		t.Fatal("an argument for -5 was accepted")
	}
	c2, r2 := base.Commit(big.NewInt(9))
	if !base.VerifyNonneg(c2, base.ProveNonneg(big.NewInt(9), c2, r2)) {
		t.Fatal("an honest argument was rejected")
	}
}
''', 'a cheating prover that chooses Cr after it has computed the challenge', 'prover and verifier both leave Cr out of the challenge hash, so an argument for a negative integer can be made')

EQ='primitive/pedersen_fujiokam/equality.go'
seed('c17-tag', 'C17', 'primitive/lrs', [
 (LRS, '''	buf.Write(L)
	buf.Write(y0.Bytes())
	buf.Write(m)
''', '''	buf.Write(L)
	buf.Write(m)
'''),
 (LRS, '''	buf.Write(L)
	buf.Write(sig.Y0.Bytes())
	buf.Write(m)
''', '''	buf.Write(L)
	buf.Write(m)
'''),
], '''package lrs

import (
	"bytes"
	"math/big"
	"testing"

	"zRep/util"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/random"
)

func TestDemo(t *testing.T) {
	suite := nist.NewAES128SHA256QR512()
	base := CreateBase(util.PointToBigInt(suite.Point().Mul(nil, suite.Secret().One())))
	x := suite.Secret().Pick(random.Stream)
	y := []abstract.Point{suite.Point().Mul(nil, x)}
	m := []byte("vote")
	honest := base.Sign(m, 1, 0, x, y)
	if !base.Verify(m, 1, 0, honest, y) {
		t.Fatal("an honest signature was rejected")
	}
	q := x.(*nist.Int).M
	xr := util.SecretToBigInt(x)
	L := computeL([]*big.Int{util.PointToBigInt(y[0])})
	h := base.computeh(m, L)
	for try := 0; try < 20; try++ {
		r, r2 := base.pickZq(), base.pickZq()
		buf := new(bytes.Buffer)
		buf.Write(L)
		buf.Write(m)
		buf.Write(new(big.Int).Exp(base.G, r, base.P).Bytes())
		buf.Write(new(big.Int).Exp(h, r2, base.P).Bytes())
		c := base.H1(buf.Bytes())
		s := new(big.Int).Mul(c, xr)
		s.Sub(r, s).Mod(s, q)
		// h^r2 = h^s * y0^c
		e := new(big.Int).ModInverse(c, q)
		if e == nil {
			continue
		}
		e.Mul(e, new(big.Int).Sub(r2, s)).Mod(e, q)
		sig := &Signature{Y0: new(big.Int).Exp(h, e, base.P), S: []*big.Int{s}, C: []*big.Int{c}}
		if base.Verify(m, 1, 0, sig, y) && !Linkable(sig, honest) {
			t.Fatal("one signer made two signatures that do not link")
		}
	}
}
''', 'a ring member that chooses its linking tag after it has computed the challenge', 'signer and verifier both leave the tag out of the challenge hash, so one member can vote under several tags')

seed('c02-inplace', 'C02', 'primitive/pedersen', [
 ('primitive/pedersen/PedersenCommitment.go', 'return base.Suite.Point().Mul(c, E), E', 'return c.Mul(c, E), E'),
], '''package pedersen

import "testing"

func TestDemo(t *testing.T) {
	base := CreateBase()
	x := base.Suite.Secret().SetInt64(7)
	c, r := base.Commit(x)
	c2, e := base.Randomize(c)
	if !base.Suite.Point().Mul(c, e).Equal(c2) || !base.Verify(x, r, c) {
		t.Fatal("the randomised commitment is not the original one raised to E")
	}
}
''', 'using a commitment after randomising it', 'Randomize overwrites the commitment it was given')

seed('c12-long', 'C12', 'util', [
 ('util/Util.go', '''	c := suite.Cipher(pb)
	c.Message(nil, nil, message)
''', '''	c := suite.Cipher(pb)
	if max := 4 * c.KeySize(); len(message) > max {
		message = message[:max]
	}
	c.Message(nil, nil, message)
'''),
], '''package util

import (
	"bytes"
	"testing"

	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/random"
)

func TestDemo(t *testing.T) {
	suite := nist.NewAES128SHA256QR512()
	x := suite.Secret().Pick(random.Stream)
	y := suite.Point().Mul(nil, x)
	m := bytes.Repeat([]byte("a"), 300)
	sig := ElGamalSign(suite, random.Stream, m, x, nil)
	if ElGamalVerify(suite, m, y, sig, nil) != nil {
		t.Fatal("an honest signature was rejected")
	}
	m2 := append([]byte(nil), m...)
	m2[299] = 'b'
	if ElGamalVerify(suite, m2, y, sig, nil) == nil {
		t.Fatal("the signature was accepted for another message")
	}
}
''', 'two long messages that differ only after the first bytes', 'only a prefix of a long message is hashed')

seed('c09-last', 'C09', 'primitive/fujiokam', [
 (FO, '''		if !Lside.Equal(Rside) {
			return false
		}
	}
	return true
}
''', '''		if !Lside.Equal(Rside) {
			return false
		}
		if i+2 == len(bits) && Lside.Equal(public) {
			break
		}
	}
	return true
}
'''),
], '''package fujiokam

import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	base := CreateBase()
	W := GN_HONESTY_PROOF_SIZE
	secrets := make([]*big.Int, W)
	publics := make([]*Point, W)
	base.GenerateGnHonestyProof(secrets, publics)
	bits := make([]bool, W)
	bits[W-1] = true
	// the prover knows nothing about this generator: it answers all challenge bits but the last
	gn := base.genH()
	ans := make([]*big.Int, W)
	base.AnswerGnHonesty(bits, secrets, big.NewInt(5), ans)
	if base.CheckGnHonesty(ans, bits, publics, gn) {
		t.Fatal("a dishonest generator was accepted")
	}
}
''', 'a challenge whose second to last bit is zero and a prover that guessed all bits but the last', 'the last of the eighty answers is sometimes not checked')
