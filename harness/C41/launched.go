//sym:dir cmd
//sym:use common/launch.go
//sym:points cmd/coordinator
package main

import (
	"strconv"

	"zRep/cmd/client"
	"zRep/cmd/coordinator"
	"zRep/proto"
	vs "zRep/verifsym"
)

// open is a deployment in the posting phase of its second round; the first client has posted a bridge.
func open() (d *Deployment, a, b *client.DissentClient) {
	vs.FixDraws(true)
	d = NewDeployment(1, false)
	a, b = d.Start(), d.Start()
	d.EndPosting()
	d.EndVoting()
	d.CheckClients("second round")
	d.Post(a, "192.0.2.1:1")
	return
}

// hold keeps back the messages to the coordinator.
func (d *Deployment) hold() {
	d.Keep = func(to string, e *proto.Event) bool { return to == coAddr }
}

// hand gives the coordinator's listener the first message kept back.
func (d *Deployment) hand() {
	m := d.Kept[0]
	d.Kept = d.Kept[1:]
	d.arrive(m.To, m.Data)
}

// both runs the listener and the main loop, either inside the other.
func (d *Deployment) both(name string, main func()) {
	d.Keep = nil
	if vs.Choose(name+" first", 2) == 0 {
		vs.Interleave(name, d.hand, main)
	} else {
		vs.Interleave(name, main, d.hand)
	}
}

// step lets time pass for the main loop.
func (d *Deployment) step() {
	if vs.Where(d.co) == "sleep" {
		vs.Resume(d.co, "")
	}
}

// ask has the client do one of three things, kept back.
func (d *Deployment) ask(kind int, c *client.DissentClient) {
	d.hold()
	switch kind {
	case 0:
		d.VoteOn(c, 0, 1)
	case 1:
		d.Post(c, "192.0.2.3:3")
	case 2:
		d.Get(c, 1)
	}
	vs.Assert("kept", len(d.Kept) == 1)
}

// round plays a whole further round.
func (d *Deployment) round(a, b *client.DissentClient) {
	d.CheckClients("next round")
	vs.Assert("nothing left", len(d.Co.Bridges) == 0 && len(d.Co.AssignmentSignaturesLog) == 0 && len(a.Assignments) == 0 && len(b.Assignments) == 0)
	d.Post(a, "192.0.2.1:1")
	d.Get(b, 1)
	vs.Assert("delivered", len(b.Assignments) == 1 && b.Assignments[0].Assignment.Nym.Equal(a.OnetimePseudoNym))
	d.EndPosting()
	d.VoteOn(b, 0, 1)
	old := a.Reputation
	d.EndVoting()
	vs.Assert("counted", a.Reputation == old+1)
	d.CheckClients("last round")
}

// the operator ends the voting while a message arrives
func Sym_C41_launched_end() {
	kind := vs.Choose("kind", 3)
	d, a, b := open()
	d.Post(a, "192.0.2.2:2")
	d.Get(b, 1)
	d.EndPosting()
	d.ask(kind, b)
	old := a.Reputation
	d.both("end"+strconv.Itoa(kind), func() { d.Line("finish voting") })
	d.Settle()
	vs.Assert("score", a.Reputation == old || kind == 0 && a.Reputation == old+1)
	vs.Assert("other score", b.Reputation == 5)
	d.round(a, b)
}

// the operator ends the posting while a message arrives
func Sym_C41_launched_phase() {
	kind := vs.Choose("kind", 3)
	d, a, b := open()
	d.Post(a, "192.0.2.2:2")
	d.Get(b, 1)
	d.ask(kind, b)
	d.both("phase"+strconv.Itoa(kind), func() { d.Line("end posting") })
	d.Settle()
	old := a.Reputation
	switch kind {
	case 1:
		_, ok := d.Co.Bridges["192.0.2.3:3"]
		vs.Assert("posted", ok)
	case 2:
		vs.Assert("delivered", len(b.Assignments) == 2)
		d.VoteOn(b, 0, 1)
		d.VoteOn(b, 1, 1)
	}
	d.EndVoting()
	vs.Assert("score", a.Reputation == old+[]int{1, 0, 2}[kind])
	d.round(a, b)
}

// the main loop opens the next round while a message of the last one, or of a newcomer, arrives
func Sym_C41_launched_open() {
	kind := vs.Choose("kind", 4)
	d, a, b := open()
	d.Get(b, 1)
	d.EndPosting()
	if kind < 3 {
		d.ask(kind, b)
	} else {
		d.hold()
		d.Start()
	}
	// the coordinator hears that the round has ended, but its main loop still sleeps
	old := a.Reputation
	late := d.Kept
	d.Keep, d.Kept = nil, nil
	d.Line("finish voting")
	d.messages()
	vs.Assume(vs.Where(d.co) == "sleep" && d.Co.Status == coordinator.READY_FOR_NEW_ROUND)
	d.Kept = late
	d.both("open"+strconv.Itoa(kind), d.step)
	d.Settle()
	vs.Assert("score", a.Reputation == old)
	if kind == 3 {
		vs.Assert("registered", len(d.Co.NewClientsBuffer) == 1)
		d.EndPosting()
		d.EndVoting()
		vs.Assert("takes part", len(d.Co.EndingCommMap) == 3 && d.Cl[2].Status == client.MESSAGE)
	}
	d.round(a, b)
}

// the last message of a round's end or of an announcement is handled while the main loop looks at the status
func Sym_C41_launched_poll() {
	d, a, b := open()
	d.Get(b, 1)
	d.EndPosting()
	d.VoteOn(b, 0, 1)
	typ := proto.ROUND_END
	if vs.Choose("which", 2) == 1 {
		typ = proto.ANNOUNCEMENT
	}
	d.Keep = func(to string, e *proto.Event) bool { return to == coAddr && e.EventType == typ }
	old := a.Reputation
	d.EndVoting()
	vs.Assert("kept", len(d.Kept) == 1)
	d.both("poll", d.step)
	d.Settle()
	vs.Assert("score", a.Reputation == old+1)
	d.round(a, b)
}

// all messages under way are delivered while the main loop moves on
func Sym_C41_launched_network() {
	d, a, b := open()
	d.Get(b, 1)
	d.EndPosting()
	d.hold()
	d.VoteOn(b, 0, 1)
	late := d.Kept
	d.Keep, d.Kept = nil, nil
	old := a.Reputation
	if vs.Choose("where", 2) == 0 {
		d.Kept = late
		vs.Interleave("close", func() { d.Line("finish voting") }, func() {
			d.hand()
			d.messages()
		})
	} else {
		d.Line("finish voting")
		d.messages()
		vs.Assume(vs.Where(d.co) == "sleep")
		vs.Interleave("open", d.step, d.messages)
	}
	d.Settle()
	vs.Assert("the coordinator waits for commands", vs.Where(d.co) == "stdin")
	vs.Assert("score", a.Reputation == old || a.Reputation == old+1)
	d.round(a, b)
}
