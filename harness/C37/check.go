//sym:dir cmd
//sym:use common/world.go
package main

import (
	"math/big"
	"strconv"

	"zRep/cmd/client"
	"zRep/primitive/fujiokam"
	"zRep/proto"
	"zRep/util"
	vs "zRep/verifsym"
)

// bits is a challenge of the documented length.
func bits() []bool {
	b := make([]bool, 6*fujiokam.GN_HONESTY_PROOF_SIZE)
	p := vs.Choose("pattern", 3)
	for i := range b {
		b[i] = p == 1 || p == 2 && i%3 != 1
	}
	return b
}

// asked is a registered client whose challenge was b, and the honest answer to it.
func asked(b []bool, before func(w *World)) (*World, *client.DissentClient, []*big.Int) {
	w := NewWorld(1)
	w.Announce()
	if before != nil {
		before(w)
	}
	c := w.Join()
	c.AllGnHonestyChallenge = b
	n := vs.Sent()
	w.tell(c.LocalAddr.String(), coAddr, proto.GN_HONESTY_CHALLENGE, map[string]interface{}{"honesty_chal": util.ProtobufEncodeBoolList(b)})
	vs.Assert("one answer", vs.Sent() == n+2 && vs.SentAddr(n+1) == c.LocalAddr.String())
	e, _ := util.DecodeEvent(vs.SentData(n + 1))
	vs.Assert("an answer", e.EventType == proto.GN_HONESTY_ANSWER)
	return w, c, util.ProtobufDecodeBigIntList(e.Params["honesty_ans"].([]byte))
}

func (w *World) answer(c *client.DissentClient, a []*big.Int) bool {
	return !vs.Panics(func() {
		w.tell(coAddr, c.LocalAddr.String(), proto.GN_HONESTY_ANSWER, map[string]interface{}{"honesty_ans": util.ProtobufEncodeBigIntList(a)})
	})
}

func Sym_C37_honest() {
	w, c, a := asked(bits(), nil)
	vs.Assert("continues", w.answer(c, a))
}

// one answer of one generator replaced by anything else
func Sym_C37_altered() {
	w, c, a := asked(bits(), nil)
	k := vs.Choose("generator", 6)
	i := k*80 + []int{0, 1, 40, 79}[vs.Choose("position", 4)]
	l := new(big.Int).Lsh(big.NewInt(1), 1100)
	a[i] = vs.AdvBig("answer", big.NewInt(0), l)
	same := false
	e := new(big.Int).Exp(&c.FujiOkamBase.H1.V, a[i], c.FujiOkamBase.N)
	want := new(big.Int).Set(c.AllGnHonestyProofPublic[i])
	if c.AllGnHonestyChallenge[i] {
		g := []*fujiokam.Point{c.FujiOkamBase.G1, c.FujiOkamBase.G2, c.FujiOkamBase.G3, c.FujiOkamBase.G4, c.FujiOkamBase.G5, c.FujiOkamBase.G6}[k]
		want.Mul(want, &g.V).Mod(want, c.FujiOkamBase.N)
	}
	same = e.Cmp(want) == 0
	vs.Assert("continues with proper answers only", w.answer(c, a) == same)
}

// too few answers
func Sym_C37_short() {
	w, c, a := asked(bits(), nil)
	vs.Assert("stops", !w.answer(c, a[:[]int{0, 1, 79, 400, 479}[vs.Choose("n", 5)]]))
}

// proper answers followed by others, or shifted
func Sym_C37_long() {
	b := bits()
	w, c, a := asked(b, nil)
	n := 1 + vs.Choose("more", 3)
	var more []*big.Int
	for i := 0; i < n; i++ {
		more = append(more, big.NewInt(int64(vs.Choose("value", 3))))
	}
	if vs.Choose("proper", 2) == 0 {
		a = append(append([]*big.Int{}, more...), a...)
		vs.Assert("stops", !w.answer(c, a))
		return
	}
	a[479] = new(big.Int).Add(a[479], big.NewInt(1))
	vs.Assert("stops, too", !w.answer(c, append(a, more...)))
}

// the answer to a challenge that differs in one bit
func Sym_C37_other_challenge() {
	b := bits()
	w, c, a := asked(b, nil)
	c.AllGnHonestyChallenge = append([]bool{}, b...)
	i := []int{0, 80, 161, 300, 333, 479}[vs.Choose("position", 6)]
	c.AllGnHonestyChallenge[i] = !b[i]
	vs.Assert("stops", !w.answer(c, a))
}

// a generator that is no known power of the blinding generator, answered by the rules
func Sym_C37_generator() {
	b := bits()
	k := vs.Choose("generator", 6)
	some := false
	w, c, a := asked(b, func(w *World) {
		f := w.Co.FujiOkamBase
		*[]**fujiokam.Point{&f.G1, &f.G2, &f.G3, &f.G4, &f.G5, &f.G6}[k] = f.Point().SetBigInt(vs.Elem("X", f.N))
	})
	for _, x := range b[k*80 : (k+1)*80] {
		some = some || x
	}
	vs.Assert("stops when it is asked for", w.answer(c, a) == !some)
}

// the challenge the client sends is the one it checks against
func Sym_C37_challenge() {
	w := NewWorld(1)
	w.Announce()
	c := w.Join()
	n := 0
	for i := 0; i < vs.Sent(); i++ {
		if e, _ := util.DecodeEvent(vs.SentData(i)); e.EventType == proto.GN_HONESTY_CHALLENGE {
			n++
			l := util.ProtobufDecodeBoolList(e.Params["honesty_chal"].([]byte))
			vs.Assert("length", len(l) == 480 && len(c.AllGnHonestyChallenge) == 480)
			for i := range l {
				vs.Assert("the same", l[i] == c.AllGnHonestyChallenge[i])
			}
		}
	}
	vs.Assert("one challenge", n == 1)
}

// parameters that are sent again are challenged anew
func Sym_C37_again() {
	w := NewWorld(1)
	w.Announce()
	c := w.Join()
	first := append([]bool{}, c.AllGnHonestyChallenge...)
	for i := 0; i < vs.Sent(); i++ {
		if e, _ := util.DecodeEvent(vs.SentData(i)); e.EventType == proto.CLIENT_REGISTER_CONFIRMATION {
			w.One(c.LocalAddr.String(), vs.SentData(i))
			break
		}
	}
	i := []int{0, 80, 161, 300, 333, 479}[vs.Choose("position", 6)]
	l := "differs at " + strconv.Itoa(i)
	vs.Cover(l)
	if first[i] != c.AllGnHonestyChallenge[i] {
		vs.Reach(l)
	}
}
