//sym:dir primitive/lrs
//sym:use common/lrs.go
package lrs

import (
	"bytes"
	"math/big"
	"strconv"

	"github.com/dedis/crypto/abstract"

	"zRep/util"
	vs "zRep/verifsym"
)

func symAdvSig(base *LRSBase, n int, t string, y0 *big.Int) *Signature {
	sig := &Signature{Y0: y0}
	for i := 0; i < n; i++ {
		sig.S = append(sig.S, vs.AdvBig("s"+strconv.Itoa(i)+t, nil, nil))
		sig.C = append(sig.C, vs.AdvBig("c"+strconv.Itoa(i)+t, nil, nil))
	}
	return sig
}

// nobody knows a key of the ring: no signature is accepted (two answers of the oracle
// to the last query would give the key of a member)
func symForge(n int) {
	base := symBase()
	var y []*big.Int
	for i := 0; i < n; i++ {
		y = append(y, vs.Elem("y"+strconv.Itoa(i), base.P))
	}
	m := vs.Bytes("m", 2)
	h := base.computeh(m, computeL(y))
	y0 := symMul(base.P, new(big.Int).Exp(h, vs.AdvBig("t", nil, nil), base.P),
		new(big.Int).Exp(base.G, vs.AdvBig("u", nil, nil), base.P))
	for i := 0; i < n; i++ {
		y0 = symMul(base.P, y0, new(big.Int).Exp(y[i], vs.AdvBig("v"+strconv.Itoa(i), nil, nil), base.P))
	}
	ok := base.VerifyHelper(m, n, 0, symAdvSig(base, n, "", y0), y)
	if ok {
		vs.Reach("accepted once")
		vs.Rewind()
		ok = base.VerifyHelper(m, n, 0, symAdvSig(base, n, "'", y0), y)
		if ok {
			vs.Forked()
		}
	}
	vs.Assert("forged", !ok)
}

func Sym_C16_forge_1()  { symForge(1) }
func Sym_C16_forge_2()  { symForge(2) }
func SymT_C16_forge_3() { symForge(3) }

// a genuine signature is good for its message, its ring and its components only
func symTransfer(max int) {
	base := symBase()
	n := vs.Choose("n", max) + 1
	pi := vs.Choose("pi", n)
	x, y := symRing(base, n)
	m := vs.Bytes("m", 2)
	sig := base.Sign(m, n, pi, x[pi], y)
	order := vs.Order(base.Suite)
	d := vs.Big("d", big.NewInt(1), new(big.Int).Sub(order, big.NewInt(1)))
	at := vs.Choose("at", n)
	g := base.Suite.Point().Base()
	switch vs.Choose("what", 12) {
	case 0:
		m2 := vs.Bytes("m2", vs.Choose("len", 4))
		vs.Assume(!bytes.Equal(m, m2))
		vs.Assert("other message", !base.Verify(m2, n, 0, sig, y))
	case 1:
		y2 := append([]abstract.Point{}, y...)
		y2[at] = base.Suite.Point().Mul(g, vs.AnySecret(base.Suite, "z"))
		vs.Assume(!y2[at].Equal(y[at]))
		vs.Assert("member replaced", !base.Verify(m, n, 0, sig, y2))
	case 2:
		y2 := append([]abstract.Point{base.Suite.Point().Mul(g, vs.AnySecret(base.Suite, "z"))}, y...)
		vs.Assert("member added", !base.Verify(m, n+1, 0, sig, y2) && !base.Verify(m, n, 0, sig, y2))
	case 3:
		vs.Assert("member removed", !base.Verify(m, n-1, 0, sig, y[1:]) && !base.Verify(m, n, 0, sig, y[1:]))
	case 4:
		s2 := &Signature{Y0: symMul(base.P, sig.Y0, new(big.Int).Exp(base.G, d, base.P)), S: sig.S, C: sig.C}
		vs.Assert("altered tag", !base.Verify(m, n, 0, s2, y))
	case 5:
		s2 := &Signature{Y0: sig.Y0, S: append([]*big.Int{}, sig.S...), C: sig.C}
		s2.S[at] = new(big.Int).Add(sig.S[at], d)
		vs.Assert("altered response", !base.Verify(m, n, 0, s2, y))
	case 6:
		s2 := &Signature{Y0: sig.Y0, S: sig.S, C: append([]*big.Int{}, sig.C...)}
		s2.C[at] = new(big.Int).Add(sig.C[at], d)
		vs.Assert("altered challenge", !base.Verify(m, n, 0, s2, y))
	case 7:
		vs.Assert("response missing", !base.Verify(m, n, 0, &Signature{sig.Y0, sig.S[:n-1], sig.C}, y))
		vs.Assert("response extra", !base.Verify(m, n, 0, &Signature{sig.Y0, append(sig.S[:n:n], d), sig.C}, y))
	case 8:
		vs.Assert("challenge missing", !base.Verify(m, n, 0, &Signature{sig.Y0, sig.S, sig.C[:n-1]}, y))
		vs.Assert("challenge extra", !base.Verify(m, n, 0, &Signature{sig.Y0, sig.S, append(sig.C[:n:n], new(big.Int))}, y))
	case 9:
		vs.Assert("everything extra", !base.Verify(m, n, 0, &Signature{sig.Y0, append(sig.S[:n:n], d), append(sig.C[:n:n], new(big.Int))}, y))
		vs.Assert("empty", !base.Verify(m, n, 0, &Signature{sig.Y0, nil, nil}, y) && !base.Verify(m, 0, 0, &Signature{sig.Y0, nil, nil}, y))
	case 11:
		l := vs.Bytes("l", 200)
		sig := base.Sign(l, n, pi, x[pi], y)
		l2 := append([]byte{}, l...)
		l2[199] = vs.Bytes("l2", 1)[0]
		vs.Assume(l2[199] != l[199])
		vs.Assert("other long message", !base.Verify(l2, n, 0, sig, y) && !base.Verify(l[:199], n, 0, sig, y))
	case 10:
		if n > 1 {
			vs.Assume(!y[0].Equal(y[1]))
			y2 := append([]abstract.Point{y[1], y[0]}, y[2:]...)
			vs.Assert("order of the ring", !base.Verify(m, n, 0, sig, y2))
		}
	}
}

func Sym_C16_transfer()       { symTransfer(2) }
func SymT_C16_transfer_more() { symTransfer(4) }

// tags that are no reduced squares
func Sym_C16_bad_tag() {
	base := symBase()
	_, y := symRing(base, 2)
	m := vs.Bytes("m", 1)
	var t *big.Int
	switch vs.Choose("tag", 3) {
	case 0:
		t = new(big.Int)
	case 1:
		t = new(big.Int).Set(base.P)
	case 2:
		t = new(big.Int).Sub(base.P, bigOne) // not a square
	}
	vs.Assert("tag outside the group", !base.Verify(m, 2, 0, symAdvSig(base, 2, "", t), y))
}

// members other than the signer chosen after the challenge: a signature fits one ring only
func symRingAfter(n int) {
	base := symBase()
	pi := vs.Choose("pi", n)
	x := vs.AdvSecret(base.Suite, "x")
	g := util.BigIntToPoint(base.Suite, base.G)
	m := vs.Bytes("m", 2)
	strangers := []*big.Int{vs.Elem("p", base.P), vs.Elem("q", base.P)}
	own := util.PointToBigInt(base.Suite.Point().Mul(g, x))
	ring := func(t string) []*big.Int {
		var y []*big.Int
		for i := 0; i < n; i++ {
			s := strconv.Itoa(i) + t
			switch {
			case i == pi:
				y = append(y, own)
			default: // any product of powers of the elements at hand
				e := new(big.Int).Exp(base.G, vs.AdvBig("g"+s, nil, nil), base.P)
				for j, p := range strangers {
					e = symMul(base.P, e, new(big.Int).Exp(p, vs.AdvBig("p"+strconv.Itoa(j)+s, nil, nil), base.P))
				}
				y = append(y, e)
			}
		}
		return y
	}
	a := ring("")
	tag := new(big.Int).Exp(base.computeh(m, computeL(a)), util.SecretToBigInt(x), base.P)
	if !base.VerifyHelper(m, n, 0, symAdvSig(base, n, "", tag), a) {
		return
	}
	vs.Rewind()
	b := ring("'")
	if !base.VerifyHelper(m, n, 0, symAdvSig(base, n, "'", tag), b) {
		return
	}
	vs.Forked()
	vs.Reach("accepted twice")
	for i := range a {
		vs.Assert("ring fixed before the challenge", a[i].Cmp(b[i]) == 0)
	}
}

func Sym_C16_ring_afterwards() { symRingAfter(2) }
