//sym:dir cmd
//sym:use common/world.go
//sym:use common/lclient.go
//sym:use common/lserver.go
//sym:use common/lcoord.go
package main

import (
	"strconv"

	"zRep/cmd/client"
	"zRep/cmd/coordinator"
	"zRep/cmd/server"
	"zRep/proto"
	"zRep/util"
	vs "zRep/verifsym"
)

// Deployment is a whole deployment that is run by the programs' own main loops: commands are typed at
// their prompts, and messages arrive at their sockets.
type Deployment struct {
	World
	co    int
	cl    []int
	socks map[string]int
}

// NewDeployment starts a coordinator without fake clients, and servers.
func NewDeployment(servers int, fakes bool) *Deployment {
	d := &Deployment{socks: map[string]int{}}
	vs.Files(true)
	if !fakes {
		coordinator.SymNoFakes()
	}
	d.co = vs.Spawn(coordinator.Launch)
	d.Co = coordinator.SymThe()
	d.sockets()
	for i := 0; i < servers; i++ {
		p := vs.Spawn(server.Launch)
		d.Sv = append(d.Sv, server.SymThe())
		d.sockets()
		d.Settle()
		vs.Resume(p, "")
	}
	d.Line("start")
	d.Settle()
	return d
}

func (d *Deployment) sockets() {
	for i := len(d.socks); i < vs.Listeners(); i++ {
		d.socks[vs.ListenAddr(i)] = i
	}
}

// Settle delivers the messages under way and what they cause, and lets time pass for the coordinator.
func (d *Deployment) Settle() {
	for {
		d.messages()
		if vs.Where(d.co) != "sleep" || d.pos < vs.Sent() {
			return
		}
		vs.Resume(d.co, "")
		if vs.Where(d.co) == "sleep" && d.pos == vs.Sent() {
			return
		}
	}
}

// messages delivers the messages under way and what they cause.
func (d *Deployment) messages() {
	from := d.pos
	for ; d.pos < vs.Sent(); d.pos++ {
		vs.Assert("comes to an end", d.pos < from+500)
		to, data := vs.SentAddr(d.pos), vs.SentData(d.pos)
		if d.Keep != nil {
			if e, _ := util.DecodeEvent(data); d.Keep(to, e) {
				d.Kept = append(d.Kept, Msg{to, data})
				continue
			}
		}
		d.arrive(to, data)
	}
}

func (d *Deployment) arrive(to string, data []byte) {
	e, _ := util.DecodeEvent(data)
	if e.EventType == proto.GN_HONESTY_CHALLENGE && !d.Honesty {
		return // left out here: its 480 random bits; see C09, C10 and C37
	}
	i, ok := d.socks[to]
	vs.Assert("somebody listens", ok && vs.Accepting(i))
	for _, s := range d.Sv {
		if to == s.LocalAddr.String() {
			server.SymBe(s)
		}
	}
	for _, c := range d.Cl {
		if to == c.LocalAddr.String() {
			client.SymBe(c)
		}
	}
	vs.Feed(i, data)
}

// Line is a line typed at the coordinator's prompt.
func (d *Deployment) Line(s string) {
	vs.Assert("the coordinator waits for "+s, vs.Where(d.co) == "stdin")
	vs.Resume(d.co, "")
}

// Start starts one more client.
func (d *Deployment) Start() *client.DissentClient {
	p := vs.Spawn(client.Launch)
	c := client.SymThe()
	d.Cl = append(d.Cl, c)
	d.cl = append(d.cl, p)
	d.sockets()
	d.Settle()
	return c
}

// Type is a command typed at a client's prompt.
func (d *Deployment) Type(c *client.DissentClient, line string) {
	for i, o := range d.Cl {
		if o == c {
			client.SymBe(c)
			if vs.Where(d.cl[i]) == "sleep" {
				vs.Resume(d.cl[i], "")
			}
			vs.Assert("the client takes commands", vs.Where(d.cl[i]) == "stdin")
			vs.Resume(d.cl[i], line)
			d.Settle()
		}
	}
}

func (d *Deployment) EndPosting() { d.Line("end posting"); d.Settle() }
func (d *Deployment) EndVoting()  { d.Line("finish voting"); d.Settle() }

func (d *Deployment) Post(c *client.DissentClient, addr string) { d.Type(c, "post "+addr) }
func (d *Deployment) Get(c *client.DissentClient, n int)        { d.Type(c, "get "+strconv.Itoa(n)) }
func (d *Deployment) VoteOn(c *client.DissentClient, i, f int) {
	d.Type(c, "vote "+strconv.Itoa(i)+" "+strconv.Itoa(f))
}
