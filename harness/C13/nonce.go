//sym:dir cmd
//sym:use common/world.go
package main

import (
	"bytes"
	"strconv"

	"zRep/proto"
	"zRep/util"
	vs "zRep/verifsym"

	"github.com/dedis/crypto/abstract"
)

// signed is one signature and the key it was made with.
type signed struct {
	who  string
	x    abstract.Secret
	c, r abstract.Secret
}

type symSig struct{ C, R abstract.Secret }

// collect gathers the signatures in all messages sent since mark.
func (w *World) collect(mark int) []signed {
	var l []signed
	suite := w.Co.Suite
	add := func(who string, x abstract.Secret, b []byte) {
		var s symSig
		vs.Assert("readable", abstract.Read(bytes.NewBuffer(b), &s, suite) == nil)
		l = append(l, signed{who, x, s.C, s.R})
	}
	for i := mark; i < vs.Sent(); i++ {
		e, from := util.DecodeEvent(vs.SentData(i))
		f := from.String()
		for j, c := range w.Cl {
			if f == c.LocalAddr.String() {
				switch e.EventType {
				case proto.POST_BRIDGE, proto.REQUEST_BRIDGES, proto.VOTE:
					add("client "+strconv.Itoa(j), c.PrivateKey, e.Params["signature"].([]byte))
				}
			}
		}
		for j, s := range w.Sv {
			if f == s.LocalAddr.String() && e.EventType == proto.GOT_SIGNS {
				for _, b := range util.Decode2DByteArray(e.Params["signatures"].([]byte)) {
					add("server "+strconv.Itoa(j), s.PrivateKey, b)
				}
			}
		}
		if f == w.Co.LocalAddr.String() && e.EventType == proto.GOT_SIGNS {
			add("coordinator", w.Co.PrivateKey, e.Params["signature"].([]byte))
			sigs := util.Decode2DByteArray(e.Params["signatures"].([]byte))
			add("coordinator", w.Co.PrivateKey, sigs[len(sigs)-1])
		}
	}
	return l
}

// check: no nonce is known from outside, and none is another one plus something known.
func (w *World) check(l []signed) {
	suite := w.Co.Suite
	guess := vs.AdvSecret(suite, "guess")
	var ks []abstract.Secret
	for _, s := range l {
		k := suite.Secret().Add(s.r, suite.Secret().Mul(s.x, s.c))
		vs.Assert("not known: "+s.who, !k.Equal(guess))
		for j, o := range ks {
			vs.Assert("independent: "+l[j].who+", "+s.who, !suite.Secret().Sub(k, o).Equal(guess))
		}
		ks = append(ks, k)
	}
}

// two clients that post, request and vote, with one or two servers
func Sym_C13_round() {
	w := NewWorld(1 + vs.Choose("servers", 2))
	w.Announce()
	a, b := w.Seat(), w.Seat()
	mark := vs.Sent()
	w.Post(a, "192.0.2.1:1")
	w.Post(a, "192.0.2.2:2")
	w.Post(b, "192.0.2.3:3")
	w.Request(b, 2)
	w.Request(a, 1)
	vs.Assert("served", len(b.Assignments) == 2 && len(a.Assignments) == 1)
	w.Vote()
	w.VoteFor(b, 0, 1)
	w.VoteFor(b, 1, -1)
	w.VoteFor(a, 0, 1)
	l := w.collect(mark)
	vs.Assert("all seen", len(l) == 3+2+3+3*len(w.Sv)+2*3)
	w.check(l)
}

// the same action taken again with the same contents, in the same round and in the next
func Sym_C13_again() {
	w := NewWorld(1)
	w.Announce()
	a := w.Seat()
	mark := vs.Sent()
	w.Post(a, "192.0.2.1:1")
	w.Post(a, "192.0.2.1:1")
	w.Request(a, 1)
	w.Request(a, 1)
	vs.Assert("served", len(a.Assignments) == 1)
	w.Vote()
	w.VoteFor(a, 0, 1)
	w.VoteFor(a, 0, 1)
	w.check(w.collect(mark))
}

func Sym_C13_rounds() {
	w := NewWorld(1)
	w.Announce()
	a := w.Join()
	w.RoundEnd()
	var l []signed
	for i := 0; i < 2; i++ {
		w.Announce()
		mark := vs.Sent()
		w.Post(a, "192.0.2.1:1")
		w.Request(a, 1)
		vs.Assert("served", len(a.Assignments) == 1)
		w.Vote()
		w.VoteFor(a, 0, 1)
		l = append(l, w.collect(mark)...)
		w.RoundEnd()
	}
	w.check(l)
}
