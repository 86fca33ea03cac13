//sym:dir cmd
//sym:use common/world.go
package main

import (
	"net"
	"strconv"

	"zRep/cmd/bridge"
	"zRep/cmd/client"
	"zRep/proto"
	"zRep/util"
	vs "zRep/verifsym"
)

// replies runs a request of each requester and keeps back what the servers answer.
func replies(servers, posted int, ask ...int) (w *World, cs []*client.DissentClient) {
	w = NewWorld(servers)
	w.Announce()
	for range ask {
		cs = append(cs, w.Join())
	}
	w.RoundEnd()
	w.Announce()
	for i := 0; i < posted; i++ {
		w.Post(cs[0], "192.0.2.1:"+strconv.Itoa(i+1))
	}
	w.Keep = func(to string, e *proto.Event) bool { return e.EventType == proto.GOT_SIGNS && to == coAddr }
	for i, n := range ask {
		w.Request(cs[i], n)
	}
	vs.Assert("one answer of each server", len(w.Kept) == servers*len(ask))
	w.Keep = nil
	return
}

func (w *World) give(m Msg) { w.One(m.To, m.Data); w.Deliver() }

// has checks what a client was delivered.
func (w *World) has(c *client.DissentClient, n int) {
	vs.Assert("delivered", len(c.Assignments) == n)
	seen := map[string]bool{}
	for _, info := range c.Assignments {
		a := info.Assignment
		vs.Assert("once", !seen[a.Addr])
		seen[a.Addr] = true
		vs.Assert("to its requester", a.NymR.Equal(c.OnetimePseudoNym))
		sigs := util.Decode2DByteArray(info.ByteSignatures)
		vs.Assert("number of signatures", len(sigs) == len(w.Sv)+1)
		msg := bridge.EncodeAssignment(a)
		for i, s := range w.Sv {
			vs.Assert("signature in its place", util.ElGamalVerify(s.Suite, msg, s.PublicKey, sigs[i], nil) == nil)
		}
		vs.Assert("own signature last", util.ElGamalVerify(w.Co.Suite, msg, w.Co.PublicKey, sigs[len(w.Sv)], nil) == nil)
	}
}

// from is the same answer sent by somebody else.
func from(m Msg, addr string, change func(pm map[string]interface{})) Msg {
	e, _ := util.DecodeEvent(m.Data)
	if change != nil {
		change(e.Params)
	}
	src, _ := net.ResolveTCPAddr("tcp", addr)
	dst, _ := net.ResolveTCPAddr("tcp", m.To)
	n := vs.Sent()
	util.SendEvent(src, dst, e)
	return Msg{m.To, vs.SentData(n)}
}

// sequences of answers of several servers, repeated, failing and from strangers
func order(servers, steps int) {
	w, cs := replies(servers, 1, 1)
	w.pos = vs.Sent()
	got := make([]bool, servers)
	n := 0
	all := append([]Msg{}, w.Kept...)
	for i := 0; i < steps; i++ {
		k := vs.Choose("step"+strconv.Itoa(i), servers+2)
		var m Msg
		switch {
		case k < servers:
			m = w.Kept[k]
		case k == servers:
			m = from(all[0], "203.0.113.9:999", nil)
		default:
			m = from(all[0], w.Sv[0].LocalAddr.String(), func(pm map[string]interface{}) { pm["success"] = false })
		}
		w.pos = vs.Sent()
		w.give(m)
		if k < servers && !got[k] {
			got[k] = true
			n++
		}
		if n == servers {
			w.has(cs[0], 1)
		} else {
			vs.Assert("nothing before all have answered", len(cs[0].Assignments) == 0)
		}
	}
}

func Sym_C29_one()    { order(1, 3) }
func Sym_C29_two()    { order(2, 4) }
func SymT_C29_two()   { order(2, 5) }
func SymT_C29_three() { order(3, 5) }

// the answers to two requests in any order
func Sym_C29_requests() {
	w, cs := replies(2, 3, 2, 1)
	left := w.Kept
	for len(left) > 0 {
		k := vs.Choose("next"+strconv.Itoa(len(left)), len(left))
		w.give(left[k])
		left = append(append([]Msg{}, left[:k]...), left[k+1:]...)
	}
	w.has(cs[0], 2)
	w.has(cs[1], 1)
	for _, x := range cs[0].Assignments {
		vs.Assert("different bridges", x.Assignment.Addr != cs[1].Assignments[0].Assignment.Addr)
	}
}

// a server whose answers, however many, carry no signature has not contributed one
func Sym_C29_empty() {
	w, cs := replies(2, 2, 2)
	who := vs.Choose("server", 2)
	kept := append([]Msg{}, w.Kept...)
	bare := from(kept[who], w.Sv[who].LocalAddr.String(), func(pm map[string]interface{}) {
		pm["signatures"] = util.Encode2DByteArray([][]byte{{}, {}})
	})
	w.pos = vs.Sent()
	first := vs.Choose("first", 2) == 1
	if first {
		w.give(kept[1-who])
	}
	for i := 0; i < 3; i++ {
		w.give(bare)
		vs.Assert("nothing delivered", len(cs[0].Assignments) == 0)
	}
	if !first {
		w.give(kept[1-who])
	}
	vs.Assert("nothing delivered", len(cs[0].Assignments) == 0)
	w.give(kept[who])
	w.has(cs[0], 2)
}

// one server never answers
func Sym_C29_missing() {
	w, cs := replies(3, 2, 2)
	out := vs.Choose("missing", 3)
	for r := 0; r < 2; r++ {
		for i, m := range w.Kept {
			if i != out {
				w.give(m)
			}
		}
	}
	vs.Assert("nothing delivered", len(cs[0].Assignments) == 0)
	w.give(w.Kept[out])
	w.has(cs[0], 2)
}

// senders that share part of a server's address
func Sym_C29_strangers() {
	w, cs := replies(2, 1, 1)
	a, b := w.Sv[0].LocalAddr, w.Sv[1].LocalAddr
	port := func(p int) string { return strconv.Itoa(p) }
	m := w.Kept[vs.Choose("whose", 2)]
	w.pos = vs.Sent()
	who := []string{"203.0.113.9:" + port(a.Port), "203.0.113.9:" + port(b.Port), a.IP.String() + ":999", a.IP.String() + ":" + port(b.Port+1), cs[0].LocalAddr.String(), coAddr,
		"127.0.0.1:" + port(a.Port), "0.0.0.0:" + port(a.Port), a.IP.String() + "1:" + port(a.Port), "1" + b.String(), a.String()[:len(a.String())-1]}
	w.give(from(m, who[vs.Choose("who", len(who))], nil))
	w.give(w.Kept[vs.Choose("server", 2)])
	vs.Assert("ignored", len(cs[0].Assignments) == 0)
	for _, m := range w.Kept {
		w.give(m)
	}
	w.has(cs[0], 1)
}

// a client that asks again from another address
func Sym_C29_moved() {
	w, cs := replies(1, 3, 1)
	c := cs[0]
	first := c.LocalAddr
	pending := vs.Choose("pending", 2) == 1
	if !pending {
		n := vs.Sent()
		w.One(w.Kept[0].To, w.Kept[0].Data)
		vs.Assert("to the first address", vs.Sent() == n+1 && vs.SentAddr(n) == first.String())
	}
	c.LocalAddr, _ = net.ResolveTCPAddr("tcp", "127.0.0.1:30077")
	w.Keep = func(to string, e *proto.Event) bool { return e.EventType == proto.GOT_SIGNS && to == coAddr }
	w.pos = vs.Sent()
	w.Request(c, 1)
	w.Keep = nil
	vs.Assert("asked again", len(w.Kept) == 2)
	n := vs.Sent()
	w.One(w.Kept[1].To, w.Kept[1].Data)
	vs.Assert("to the second address", vs.Sent() == n+1 && vs.SentAddr(n) == c.LocalAddr.String())
	if pending {
		w.One(w.Kept[0].To, w.Kept[0].Data)
		vs.Assert("to the address of that request", vs.Sent() == n+2 && vs.SentAddr(n+1) == first.String())
	}
}

// the requester's address is where the request came from
func Sym_C29_address() {
	w, cs := replies(1, 2, 1, 1)
	n := vs.Sent()
	w.One(w.Kept[1].To, w.Kept[1].Data)
	vs.Assert("one message", vs.Sent() == n+1)
	vs.Assert("to the requester", vs.SentAddr(n) == cs[1].LocalAddr.String())
}

// answers that arrive after their round has ended, when the same bridge may have been posted
// and requested again
func Sym_C29_late() {
	w, cs := replies(2, 1, 1)
	old := w.Kept
	w.Kept = nil
	first := vs.Choose("first", 2) == 1
	w.pos = vs.Sent()
	if first {
		w.give(old[0])
	}
	late := func(when int) {
		if vs.Choose("late"+strconv.Itoa(when), 2) == 1 {
			w.give(old[1])
			if !first {
				w.give(old[0])
			}
		}
	}
	w.RoundEnd()
	late(0)
	w.Announce()
	late(1)
	w.Post(cs[0], "192.0.2.1:1")
	late(2)
	w.Keep = func(to string, e *proto.Event) bool { return e.EventType == proto.GOT_SIGNS && to == coAddr }
	w.Request(cs[0], 1)
	w.Keep = nil
	vs.Assert("asked again", len(w.Kept) == 2)
	w.pos = vs.Sent()
	late(3)
	vs.Assert("nothing of an earlier round", len(cs[0].Assignments) == 0)
	w.give(w.Kept[0])
	late(4)
	vs.Assert("not complete yet", len(cs[0].Assignments) == 0)
	w.give(w.Kept[1])
	w.has(cs[0], 1)
	late(5)
	w.has(cs[0], 1)
}
