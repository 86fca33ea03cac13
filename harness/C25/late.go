//sym:dir cmd
//sym:use common/world.go
package main

import (
	"zRep/proto"
	vs "zRep/verifsym"
)

// a post that arrives after its round has ended is not assigned in the next one
func Sym_C25_late() {
	w := NewWorld(1)
	w.Announce()
	a, b := w.Join(), w.Join()
	w.RoundEnd()
	w.Announce()
	w.Keep = func(to string, e *proto.Event) bool { return e.EventType == proto.POST_BRIDGE }
	w.Post(a, "192.0.2.1:1")
	w.Keep = nil
	vs.Assert("kept back", len(w.Kept) == 1)
	post := w.Kept[0]
	when := vs.Choose("when", 5)
	late := func(k int) {
		if when == k {
			w.One(post.To, post.Data)
		}
	}
	// stops the coordinator's messages of a kind until the post has arrived
	held := func(typ int, step func(), k int) {
		w.Kept = nil
		w.Keep = func(to string, e *proto.Event) bool { return e.EventType == typ }
		w.pos = vs.Sent()
		step()
		w.Keep = nil
		late(k)
		for _, m := range w.Kept {
			w.One(m.To, m.Data)
		}
		w.Deliver()
	}
	held(proto.ROUND_END, w.RoundEnd, 0)
	late(1)
	held(proto.ANNOUNCEMENT, w.Announce, 2)
	late(3)
	r := a
	if vs.Thorough() && vs.Choose("requester", 2) == 1 {
		r = b
	}
	own := vs.Choose("own", 2)
	if own == 1 {
		w.Post(b, "192.0.2.2:2")
	}
	late(4)
	w.Request(r, 2)
	vs.Assert("this round's bridges only", len(r.Assignments) == own)
	for _, i := range r.Assignments {
		vs.Assert("by its provider", i.Assignment.Addr == "192.0.2.2:2" && i.Assignment.Nym.Equal(b.OnetimePseudoNym))
	}
}
