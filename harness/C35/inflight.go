//sym:dir cmd
//sym:use common/world.go
package main

import (
	"zRep/cmd/coordinator"
	"zRep/proto"
	vs "zRep/verifsym"
)

// a registration still travelling through the servers when the round ends
func Sym_C35_inflight() {
	servers := 1 + vs.Choose("servers", 2)
	w := NewWorld(servers)
	w.Announce()
	a := w.Join()
	w.checkNext(nil)
	// the newcomer's registration stops after so many of its hops
	stop := vs.Choose("hop", servers+1)
	hop := 0
	w.Keep = func(to string, e *proto.Event) bool {
		if e.EventType == proto.CLIENT_REGISTER_SERVERSIDE {
			hop++
			return hop == stop+1
		}
		return false
	}
	c := w.Join()
	vs.Assert("on its way", len(w.Kept) == 1)
	release := func() {
		k := w.Kept
		w.Keep, w.Kept = nil, nil
		for _, m := range k {
			w.One(m.To, m.Data)
		}
		w.Deliver()
	}
	if vs.Choose("released", 2) == 0 {
		// when the coordinator ended the round, before anybody has heard of that
		coordinator.SymRoundEnd(w.Co)
		release()
	} else {
		w.RoundEnd()
		release()
	}
	w.checkOne(a)
	w.Announce()
	vs.Assert("registered in this round", len(w.Co.NewClientsBuffer) == 1)
	w.checkEntry(c, 0)
	w.checkNext(nil)
	vs.Assert("starting credit", a.Reputation == 5 && c.Reputation == 5)
	w.CheckClients("later round")
}

// two registrations under way together, confirmed in any order, one confirmation repeated
func Sym_C35_together() {
	w := NewWorld(1)
	w.Announce()
	w.Keep = func(to string, e *proto.Event) bool {
		return e.EventType == proto.CLIENT_REGISTER_SERVERSIDE && to == coAddr
	}
	a, b := w.Join(), w.Join()
	vs.Assert("both on their way", len(w.Kept) == 2)
	k := w.Kept
	w.Keep, w.Kept = nil, nil
	first := vs.Choose("first", 2)
	for _, i := range []int{first, first, 1 - first, first} {
		w.One(k[i].To, k[i].Data)
		w.Deliver()
	}
	vs.Assert("each once", len(w.Co.NewClientsBuffer) == 2)
	x, y := a, b
	if first == 1 {
		x, y = b, a
	}
	w.checkEntry(x, 0)
	w.checkEntry(y, 1)
	w.checkNext(nil)
}
