//sym:dir cmd
//sym:use common/world.go
//sym:points cmd/coordinator
package main

import (
	"strconv"

	"zRep/cmd/client"
	"zRep/cmd/coordinator"
	"zRep/proto"
	vs "zRep/verifsym"
)

// held is an open round of two clients, the first of which has posted a bridge, with all messages
// to the coordinator kept back from now on.
// servers is how many servers there are.
var servers = 1

func held() (w *World, a, b *client.DissentClient) {
	vs.FixDraws(true)
	w = NewWorld(servers)
	w.Announce()
	a = w.Seat()
	b = w.Seat()
	w.RoundEnd()
	w.Announce()
	w.CheckClients("first round")
	w.Post(a, "192.0.2.1:1")
	return
}

func (w *World) hold() {
	w.Keep = func(to string, e *proto.Event) bool { return to == coAddr }
}

// take hands the n-th message kept back to the coordinator.
func (w *World) take(n int) func() {
	return func() { coordinator.Handle(w.Kept[n].Data, w.Co) }
}

// meet runs a handler and a phase change, either inside the other.
func (w *World) meet(name string, handler, phase func()) {
	if vs.Choose(name+" first", 2) == 0 {
		vs.Interleave(name, handler, phase)
	} else {
		vs.Interleave(name, phase, handler)
	}
}

func (w *World) free() {
	w.Keep = nil
	w.Kept = nil
	w.Deliver()
}

func (w *World) roundEnd() { coordinator.SymRoundEnd(w.Co) }

// next ends the exchange of a round end and opens the next round.
func (w *World) next() {
	w.free()
	vs.Assert("ready", w.Co.Status == coordinator.READY_FOR_NEW_ROUND)
	w.Announce()
	vs.Assert("open", w.Co.Status == coordinator.MESSAGE)
	w.CheckClients("next round")
}

// a vote is counted for everybody or for nobody
func Sym_C41_vote() {
	w, a, b := held()
	w.Request(b, 1)
	vs.Assert("served", len(b.Assignments) == 1)
	w.Vote()
	w.hold()
	f := 2*vs.Choose("feedback", 2) - 1
	w.VoteFor(b, 0, f)
	old := a.Reputation
	w.meet("vote", w.take(0), w.roundEnd)
	w.next()
	vs.Assert("counted or not", a.Reputation == old || a.Reputation == old+f)
	vs.Assert("others", b.Reputation == old)
}

// two votes
func Sym_C41_votes() {
	w, a, b := held()
	w.Post(a, "192.0.2.2:2")
	w.Request(b, 2)
	vs.Assert("served", len(b.Assignments) == 2)
	w.hold()
	w.VoteFor(b, 0, 1)
	w.VoteFor(b, 1, 1)
	old := a.Reputation
	first := vs.Choose("before", 2)
	if first == 1 {
		w.take(0)()
	}
	w.meet("vote", w.take(1), w.roundEnd)
	w.next()
	vs.Assert("counted or not", a.Reputation == old+first || a.Reputation == old+first+1)
	vs.Assert("others", b.Reputation == old)
}

// cleared says that nothing is left of a closed round's bridges.
func (w *World) cleared() {
	vs.Assert("bridges cleared", len(w.Co.Bridges) == 0)
	vs.Assert("assignments cleared", len(w.Co.AssignmentSignaturesLog) == 0)
}

// again has b obtain and judge a bridge of a in the new round.
func (w *World) again(a, b *client.DissentClient, addr string) {
	n := len(b.Assignments)
	w.Post(a, addr)
	w.Request(b, 1)
	vs.Assert("delivered in the new round", len(b.Assignments) == n+1)
	as := b.Assignments[n].Assignment
	vs.Assert("under the new pseudonyms", as.Nym.Equal(a.OnetimePseudoNym) && as.NymR.Equal(b.OnetimePseudoNym) && as.Addr == addr)
	w.Vote()
	w.VoteFor(b, n, 1)
	old := a.Reputation
	w.RoundEnd()
	vs.Assert("counted", a.Reputation == old+1)
	w.Announce()
	w.CheckClients("last round")
}

func Sym_C41_post() {
	w, a, b := held()
	w.hold()
	w.Post(a, "192.0.2.2:2")
	w.meet("post", w.take(0), w.roundEnd)
	w.cleared()
	w.next()
	w.cleared()
	w.again(a, b, "192.0.2.2:2")
}

func Sym_C41_request() {
	w, a, b := held()
	w.hold()
	w.Request(b, 1)
	w.meet("request", w.take(0), w.roundEnd)
	w.cleared()
	w.next()
	w.again(a, b, "192.0.2.1:1")
}

func Sym_C41_signatures() {
	w, a, b := held()
	w.Keep = func(to string, e *proto.Event) bool { return e.EventType == proto.GOT_SIGNS && to == coAddr }
	w.Request(b, 1)
	w.hold()
	vs.Assert("signed", len(w.Kept) == 1)
	w.meet("signatures", w.take(0), w.roundEnd)
	w.cleared()
	w.next()
	w.again(a, b, "192.0.2.1:1")
}

// the voting phase begins while something is handled
func Sym_C41_phase() {
	w, a, b := held()
	w.Post(a, "192.0.2.2:2")
	w.Request(b, 1)
	vs.Assert("served", len(b.Assignments) == 1)
	w.hold()
	kind := vs.Choose("kind", 3)
	switch kind {
	case 0:
		w.VoteFor(b, 0, 1)
	case 1:
		w.Post(b, "192.0.2.3:3")
	case 2:
		w.Request(b, 1)
	}
	w.meet("phase"+strconv.Itoa(kind), w.take(0), func() { coordinator.SymVotePhase(w.Co) })
	old := a.Reputation
	w.free()
	switch kind {
	case 0:
		w.RoundEnd()
		vs.Assert("counted", a.Reputation == old+1)
	case 1:
		_, ok := w.Co.Bridges["192.0.2.3:3"]
		vs.Assert("posted", ok)
		w.RoundEnd()
	case 2:
		vs.Assert("delivered", len(b.Assignments) == 2)
		w.VoteFor(b, 0, 1)
		w.VoteFor(b, 1, 1)
		w.RoundEnd()
		vs.Assert("counted", a.Reputation == old+2)
	}
	w.cleared()
	w.Announce()
	w.CheckClients("next round")
}

// a client registers while the next round is being opened
func Sym_C41_register() {
	w, _, _ := held()
	w.RoundEnd()
	vs.Assert("ready", w.Co.Status == coordinator.READY_FOR_NEW_ROUND)
	w.hold()
	c := w.Join()
	w.meet("register", w.take(0), func() { coordinator.SymAnnounce(w.Co) })
	w.free()
	vs.Assert("open", w.Co.Status == coordinator.MESSAGE)
	vs.Assert("buffered", len(w.Co.NewClientsBuffer) == 1)
	w.RoundEnd()
	w.Announce()
	w.CheckClients("next round")
	vs.Assert("takes part", c.Status == client.MESSAGE && c.PCommr != nil)
}

// two of a and b's messages are under way when the round ends
func SymT_C41_pair() {
	w, a, b := held()
	w.Post(a, "192.0.2.2:2")
	w.Request(b, 1)
	vs.Assert("served", len(b.Assignments) == 1)
	w.hold()
	w.VoteFor(b, 0, -1)
	w.Post(b, "192.0.2.3:3")
	w.Request(b, 1)
	old := a.Reputation
	i := vs.Choose("first", 3)
	j := vs.Choose("second", 3)
	vs.Assume(i != j)
	vs.Interleave("pair", func() { w.take(i)(); w.take(j)() }, w.roundEnd)
	w.cleared()
	w.next()
	vs.Assert("counted or not", a.Reputation == old || a.Reputation == old-1)
	vs.Assert("others", b.Reputation == old)
	w.again(a, b, "192.0.2.3:3")
}

// the same with two servers
func SymT_C41_vote_servers() {
	servers = 2
	Sym_C41_vote()
}

func SymT_C41_request_servers() {
	servers = 2
	Sym_C41_request()
}
