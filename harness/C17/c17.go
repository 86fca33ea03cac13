//sym:dir primitive/lrs
//sym:use common/lrs.go
package lrs

import (
	"math/big"
	"strconv"

	"zRep/util"

	vs "zRep/verifsym"
)

func symLinked(max int) {
	base := symBase()
	n := vs.Choose("n", max) + 1
	i, j := vs.Choose("i", n), vs.Choose("j", n)
	x, y := symRing(base, n)
	m := vs.Bytes("m", 2)
	a := base.Sign(m, n, i, x[i], y)
	b := base.Sign(m, n, j, x[j], y)
	vs.Assert("linkable exactly for the same key", Linkable(a, b) == x[i].Equal(x[j]))
	vs.Assert("symmetric", Linkable(b, a) == Linkable(a, b))
	vs.Assert("with itself", Linkable(a, a))
	c := ProtobufDecodeSignature(ProtobufEncodeSignature(a))
	vs.Assert("after transmission", Linkable(c, a) && Linkable(c, b) == x[i].Equal(x[j]))
}

func Sym_C17_linked()       { symLinked(2) }
func SymT_C17_linked_more() { symLinked(4) }

// a member cannot produce a signature with another tag than its own
func symTag(n int, other bool) {
	base := symBase()
	pi := vs.Choose("pi", n)
	x := vs.AnySecret(base.Suite, "x")
	g := util.BigIntToPoint(base.Suite, base.G)
	var y []*big.Int
	for i := 0; i < n; i++ {
		if i == pi {
			y = append(y, util.PointToBigInt(base.Suite.Point().Mul(g, x)))
		} else {
			y = append(y, vs.Elem("y"+strconv.Itoa(i), base.P))
		}
	}
	m := vs.Bytes("m", 2)
	h := base.computeh(m, computeL(y))
	// the tag of somebody else, as seen on its signature
	stranger := vs.Elem("tag", base.P)
	tag := func(t string) *big.Int {
		return symMul(base.P, new(big.Int).Exp(h, vs.AdvBig("t"+t, nil, nil), base.P),
			new(big.Int).Exp(base.G, vs.AdvBig("u"+t, nil, nil), base.P), new(big.Int).Exp(stranger, vs.AdvBig("w"+t, nil, nil), base.P))
	}
	y0 := tag("")
	q := base.Q
	mk := func(t string, y0 *big.Int) *Signature {
		sig := &Signature{Y0: y0}
		for i := 0; i < n; i++ {
			sig.S = append(sig.S, vs.AdvBig("s"+strconv.Itoa(i)+t, nil, nil))
			// every integer, written as a residue and a multiple of the order
			c := vs.AdvBig("c"+strconv.Itoa(i)+t, new(big.Int), new(big.Int).Sub(q, big.NewInt(1)))
			k := vs.AdvBig("k"+strconv.Itoa(i)+t, nil, nil)
			sig.C = append(sig.C, c.Add(c, k.Mul(k, q)))
		}
		return sig
	}
	if !base.VerifyHelper(m, n, 0, mk("", y0), y) {
		return
	}
	vs.Rewind()
	if other {
		// a tag chosen after the challenge
		y1 := tag("'")
		if !base.VerifyHelper(m, n, 0, mk("'", y1), y) {
			return
		}
		vs.Forked()
		vs.Reach("accepted twice")
		vs.Assert("tag fixed before the challenge", y0.Cmp(y1) == 0)
		return
	}
	if !base.VerifyHelper(m, n, 0, mk("'", y0), y) {
		return
	}
	vs.Forked()
	vs.Reach("accepted twice")
	vs.Assert("the signer's own tag", y0.Cmp(new(big.Int).Exp(h, util.SecretToBigInt(x), base.P)) == 0)
}

func Sym_C17_tag_1()             { symTag(1, false) }
func Sym_C17_tag_2()             { symTag(2, false) }
func SymT_C17_tag_3()            { symTag(3, false) }
func Sym_C17_tag_afterwards_1()  { symTag(1, true) }
func Sym_C17_tag_afterwards_2()  { symTag(2, true) }
func SymT_C17_tag_afterwards_3() { symTag(3, true) }
