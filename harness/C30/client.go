//sym:dir cmd
//sym:use common/world.go
package main

import vs "zRep/verifsym"

// votes made by the client's own code, repeated, and again in the next round
func Sym_C30_client() {
	servers := 1
	if vs.Thorough() {
		servers += vs.Choose("servers", 2)
	}
	w := NewWorld(servers)
	w.Announce()
	a, b := w.Join(), w.Join()
	w.RoundEnd()
	w.Announce()
	w.Post(a, "192.0.2.1:1")
	w.Post(a, "192.0.2.2:2")
	w.Request(b, 2)
	vs.Assert("served", len(b.Assignments) == 2)
	w.Vote()
	f := vs.Int("feedback", -3, 3)
	d := 1
	if f <= 0 {
		d = -1
	}
	w.VoteFor(b, 0, f)
	vs.Assert("counted", w.Co.GetReputationDiff(a.OnetimePseudoNym) == d)
	w.VoteFor(b, 0, 1)
	vs.Assert("not twice", w.Co.GetReputationDiff(a.OnetimePseudoNym) == d)
	w.VoteFor(b, 1, 1)
	vs.Assert("the other one", w.Co.GetReputationDiff(a.OnetimePseudoNym) == d+1)
	vs.Assert("not the voter", w.Co.GetReputationDiff(b.OnetimePseudoNym) == 0)
	old := b.Assignments
	w.RoundEnd()
	w.Announce()
	vs.Assert("a new count", len(w.Co.ReputationDiffMap) == 0)
	b.Assignments = old
	w.VoteFor(b, 0, 1)
	for _, v := range w.Co.ReputationDiffMap {
		vs.Assert("no vote on an old assignment", v == 0)
	}
}

// the same bridge in the next round; votes of the earlier round sent again
func Sym_C30_next() {
	w := NewWorld(1)
	w.Announce()
	a, b := w.Join(), w.Join()
	w.RoundEnd()
	w.Announce()
	w.Post(a, "192.0.2.1:1")
	w.Request(b, 1)
	w.Vote()
	n := vs.Sent()
	voted := vs.Choose("voted", 2) == 1
	f := 2*vs.Choose("f1", 2) - 1
	if voted {
		w.VoteFor(b, 0, f)
		vs.Assert("counted", w.Co.GetReputationDiff(a.OnetimePseudoNym) == f)
	}
	w.RoundEnd()
	w.Announce()
	p, r := a, b
	if vs.Choose("roles", 2) == 1 {
		p, r = b, a
	}
	w.Post(p, "192.0.2.1:1")
	w.Request(r, 1)
	vs.Assert("served", len(r.Assignments) == 1)
	w.Vote()
	if voted {
		w.One(coAddr, vs.SentData(n))
		vs.Assert("not again", w.Co.GetReputationDiff(a.OnetimePseudoNym) == 0 && w.Co.GetReputationDiff(b.OnetimePseudoNym) == 0)
	}
	g := 2*vs.Choose("f2", 2) - 1
	w.VoteFor(r, 0, g)
	vs.Assert("counted again", w.Co.GetReputationDiff(p.OnetimePseudoNym) == g && w.Co.GetReputationDiff(r.OnetimePseudoNym) == 0)
}

// a vote sent again after something else has happened in the round
func Sym_C30_between() {
	w := NewWorld(1)
	w.Announce()
	a, b := w.Join(), w.Join()
	w.RoundEnd()
	w.Announce()
	w.Post(a, "192.0.2.1:1")
	w.Post(a, "192.0.2.2:2")
	w.Request(b, 1)
	vs.Assert("served", len(b.Assignments) == 1)
	if vs.Choose("early", 2) == 0 {
		w.Vote()
	}
	f := 2*vs.Choose("feedback", 2) - 1
	w.VoteFor(b, 0, f)
	vs.Assert("counted", w.Co.GetReputationDiff(a.OnetimePseudoNym) == f)
	switch vs.Choose("between", 6) {
	case 0:
		w.Vote()
	case 1:
		w.Post(a, "192.0.2.3:3")
		w.Post(a, b.Assignments[0].Assignment.Addr)
	case 2:
		w.Request(b, 1)
	case 3:
		w.Join()
	case 4:
		w.Vote()
		w.Request(a, 1)
		w.Vote()
	case 5:
		w.Request(b, 1)
		w.VoteFor(b, 1, 1)
		w.VoteFor(b, 1, 1)
		f++
	}
	w.VoteFor(b, 0, 1)
	w.VoteFor(b, 0, -1)
	vs.Assert("once", w.Co.GetReputationDiff(a.OnetimePseudoNym) == f && w.Co.GetReputationDiff(b.OnetimePseudoNym) == 0)
	was := a.Reputation
	w.RoundEnd()
	vs.Assert("as counted", a.Reputation == was+f && b.Reputation == was)
}
