//sym:dir cmd
//sym:use common/world.go
package main

import (
	"zRep/cmd/client"
	"zRep/cmd/coordinator"
	"zRep/proto"
	"zRep/util"
	vs "zRep/verifsym"
)

// received counts the messages of one type sent to an address from the n-th message on.
func received(n int, to string, typ int) int {
	k := 0
	for ; n < vs.Sent(); n++ {
		if vs.SentAddr(n) == to {
			if e, _ := util.DecodeEvent(vs.SentData(n)); e.EventType == typ {
				k++
			}
		}
	}
	return k
}

// slow is a participant that handles what it is sent late, though in order.
type slow struct {
	w    *World
	at   int
	seen int
	who  string
	// is a client that catches up only when told to
	client bool
}

func (s *slow) keep(to string, e *proto.Event) bool {
	s.seen++
	if s.seen == s.at+1 {
		s.who = to
		for _, c := range s.w.Cl {
			s.client = s.client || c.LocalAddr.String() == to
		}
	}
	return s.who == to
}

// catchUp hands out what was held back, unless that is left to later.
func (s *slow) catchUp(later bool) {
	w := s.w
	if s.client && later {
		return
	}
	for len(w.Kept) > 0 {
		s.who = ""
		k := w.Kept
		w.Kept = nil
		for _, m := range k {
			w.One(m.To, m.Data)
		}
		w.Deliver()
	}
}

func (w *World) open(s *slow, later bool) {
	n := vs.Sent()
	w.Announce()
	s.catchUp(later)
	vs.Assert("the round opens", w.Co.Status == coordinator.MESSAGE)
	for _, x := range w.Sv {
		vs.Assert("every server takes part once", received(n, x.LocalAddr.String(), proto.ANNOUNCEMENT) == 1)
	}
}

func (w *World) close(s *slow, later bool) {
	n := vs.Sent()
	w.RoundEnd()
	s.catchUp(later)
	vs.Assert("the round ends", w.Co.Status == coordinator.READY_FOR_NEW_ROUND)
	for _, x := range w.Sv {
		vs.Assert("every server ends it once", received(n, x.LocalAddr.String(), proto.ROUND_END) == 1)
	}
	for _, c := range w.Cl {
		vs.Assert("every client hears of it once", received(n, c.LocalAddr.String(), proto.ROUND_END) == 1 && received(n, c.LocalAddr.String(), proto.BCAST_PEDERSEN_RDIFF) == 1)
	}
}

// any one participant falls behind at any message of a round in which everything happens
func Sym_C44_slow() {
	vs.FixDraws(true)
	w := NewWorld(1 + vs.Choose("servers", 2))
	s := &slow{w: w, at: -1}
	w.open(s, false)
	a, b := w.Join(), w.Join()
	w.close(s, false)
	s.at = vs.Choose("from message", 45)
	later := vs.Choose("catches up", 2) == 1
	w.Keep = s.keep
	w.open(s, later)
	if s.who == a.LocalAddr.String() {
		s.catchUp(false)
	}
	w.Post(a, "192.0.2.1:443")
	s.catchUp(later)
	c := client.SymNew(place(2, 30001), coAddr)
	w.Cl = append(w.Cl, c)
	client.SymRegister(c)
	w.Deliver()
	s.catchUp(later)
	if s.who == a.LocalAddr.String() {
		s.catchUp(false)
	}
	w.Request(a, 1)
	s.catchUp(later)
	if s.who == a.LocalAddr.String() {
		s.catchUp(false)
	}
	vs.Assert("served", len(a.Assignments) == 1)
	w.Vote()
	s.catchUp(later)
	w.VoteFor(a, 0, 1)
	s.catchUp(later)
	w.close(s, later)
	w.open(s, later)
	s.catchUp(false)
	vs.Assert("nobody is left behind", len(w.Kept) == 0)
	vs.Assert("every message is tried", s.seen <= 45)
	w.CheckClients("caught up")
	vs.Assert("scores", a.Reputation == 6 && b.Reputation == 5 && c.Reputation == 5)
	w.Keep = nil
	w.close(s, false)
	w.open(s, false)
	w.CheckClients("next round")
}

// rounds with anything and nothing happening in them, by whatever number of servers
func Sym_C44_idle() {
	vs.FixDraws(true)
	w := NewWorld(1 + vs.Choose("servers", 3))
	s := &slow{w: w, at: -1}
	n := 1 + vs.Choose("rounds", 3)
	for i := 0; i < n; i++ {
		w.open(s, false)
		switch vs.Choose("in it", 6) {
		case 1:
			w.Join()
		case 2:
			if len(w.Cl) > 0 && w.Cl[0].Status == client.MESSAGE {
				w.Post(w.Cl[0], "192.0.2.1:443")
			}
		case 3:
			if len(w.Cl) > 0 && w.Cl[0].Status == client.MESSAGE {
				w.Request(w.Cl[0], 2)
			}
		case 4:
			w.Vote()
		case 5:
			if len(w.Cl) > 0 && w.Cl[0].Status == client.MESSAGE {
				w.Post(w.Cl[0], "192.0.2.1:443")
				w.Request(w.Cl[0], 1)
				w.Vote()
				if len(w.Cl[0].Assignments) > 0 {
					w.VoteFor(w.Cl[0], 0, -1)
				}
			}
		}
		w.close(s, false)
	}
	w.open(s, false)
	w.CheckClients("at last")
}

// a server or the coordinator is still behind when the operator goes on
func Sym_C44_overtaken() {
	vs.FixDraws(true)
	w := NewWorld(1 + vs.Choose("servers", 2))
	s := &slow{w: w, at: -1}
	w.open(s, false)
	a := w.Join()
	w.close(s, false)
	w.open(s, false)
	w.Keep = s.keep
	s.at = vs.Choose("from message", 20)
	w.Post(a, "192.0.2.1:443")
	c := client.SymNew(place(1, 30001), coAddr)
	w.Cl = append(w.Cl, c)
	client.SymRegister(c)
	w.Deliver()
	w.Request(a, 1)
	w.Vote()
	votes := len(a.Assignments)
	if votes > 0 {
		w.VoteFor(a, 0, 1)
	}
	vs.Assert("every message is tried", s.seen <= 20)
	w.RoundEnd()
	s.catchUp(false)
	vs.Assert("the round ends", w.Co.Status == coordinator.READY_FOR_NEW_ROUND)
	w.Keep = nil
	w.open(s, false)
	vs.Assert("its vote counts or not", a.Reputation == 5 || a.Reputation == 6 && votes == 1)
	vs.Assert("starting credit", c.Reputation == 5)
	if c.Status == client.MESSAGE && c.PCommr == nil {
		// it registered in this round only
		vs.Assert("registered in this round", len(w.Co.NewClientsBuffer) == 1)
	}
	w.close(s, false)
	w.open(s, false)
	w.CheckClients("next round")
	w.Post(c, "192.0.2.2:443")
	w.Request(c, 5)
	vs.Assert("served", len(c.Assignments) == 1)
}
