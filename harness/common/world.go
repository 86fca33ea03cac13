//sym:dir cmd
//sym:use common/wclient.go
//sym:use common/wserver.go
//sym:use common/wcoord.go
package main

import (
	"net"
	"strconv"

	"zRep/cmd/client"
	"zRep/cmd/coordinator"
	"zRep/cmd/server"
	"zRep/proto"
	"zRep/util"
	vs "zRep/verifsym"
)

// World is a whole deployment whose messages are delivered one after the other, in the order sent.
type World struct {
	Co  *coordinator.Coordinator
	Sv  []*server.AnonServer
	Cl  []*client.DissentClient
	pos int
	// Honesty says whether honesty challenges are delivered.
	Honesty bool
	// Keep says which messages are kept back.
	Keep func(to string, e *proto.Event) bool
	Kept []Msg
}

// Msg is a message that was kept back.
type Msg struct {
	To   string
	Data []byte
}

const coAddr = "127.0.0.1:12345"

// place gives the parties addresses, the first and the second on one port of two hosts, the second
// and the third on one host, and so on.
func place(i, port int) string {
	return "10.0.0." + strconv.Itoa(1+(i+1)/2) + ":" + strconv.Itoa(port+i/2)
}

func NewWorld(servers int) *World {
	w := &World{Co: coordinator.SymNew(coAddr)}
	for i := 0; i < servers; i++ {
		s := server.SymNew(place(i, 12346), coAddr)
		w.Sv = append(w.Sv, s)
		server.SymRegister(s)
		w.Deliver()
	}
	coordinator.SymConfig(w.Co)
	w.Deliver()
	w.Co.Status = coordinator.READY_FOR_NEW_ROUND
	return w
}

// tell delivers one made-up message, and nothing it causes.
func (w *World) tell(from, to string, typ int, pm map[string]interface{}) {
	src, err := net.ResolveTCPAddr("tcp", from)
	util.CheckErr(err)
	dst, err := net.ResolveTCPAddr("tcp", to)
	util.CheckErr(err)
	h := w.Honesty
	w.Honesty = true
	n := vs.Sent()
	util.SendEvent(src, dst, &proto.Event{EventType: typ, Params: pm})
	data := vs.SentData(n)
	w.One(to, data)
	w.Honesty = h
	w.pos = vs.Sent()
}

// Deliver hands out all pending messages.
func (w *World) Deliver() {
	from := w.pos
	for ; w.pos < vs.Sent(); w.pos++ {
		vs.Assert("comes to an end", w.pos < from+1000)
		to, data := vs.SentAddr(w.pos), vs.SentData(w.pos)
		if w.Keep != nil {
			if e, _ := util.DecodeEvent(data); w.Keep(to, e) {
				w.Kept = append(w.Kept, Msg{to, data})
				continue
			}
		}
		w.One(to, data)
	}
}

func (w *World) One(to string, data []byte) {
	if to == w.Co.LocalAddr.String() {
		if e, _ := util.DecodeEvent(data); e.EventType == proto.GN_HONESTY_CHALLENGE && !w.Honesty {
			return // left out here: its 480 random bits; see C09, C10 and C37
		}
		coordinator.Handle(data, w.Co)
		return
	}
	for _, s := range w.Sv {
		if to == s.LocalAddr.String() {
			server.Handle(data, s)
			return
		}
	}
	for _, c := range w.Cl {
		if to == c.LocalAddr.String() {
			client.Handle(data, c)
			return
		}
	}
	panic("message to nobody: " + to)
}

func (w *World) Join() *client.DissentClient {
	c := client.SymNew(place(len(w.Cl), 30001), coAddr)
	w.Cl = append(w.Cl, c)
	client.SymRegister(c)
	w.Deliver()
	return c
}

// Seat is a client that takes part in the current round right away.
func (w *World) Seat() *client.DissentClient {
	c := w.Join()
	e := w.Co.NewClientsBuffer[len(w.Co.NewClientsBuffer)-1]
	w.Co.AddIntoEndingMap(e.Nym, e.PComm)
	for _, s := range w.Sv {
		s.AddIntoEndingMap(e.Nym, e.PComm)
	}
	w.Co.AllClientsPublicKeys = append(w.Co.AllClientsPublicKeys, e.Nym)
	c.PCommr = e.PComm
	c.PedersenBase.GT, c.PedersenBase.HT = w.Co.PedersenBase.GT, w.Co.PedersenBase.HT
	c.Status = client.MESSAGE
	return c
}

func (w *World) Announce() { coordinator.SymAnnounce(w.Co); w.Deliver() }
func (w *World) Vote()     { coordinator.SymVotePhase(w.Co); w.Deliver() }
func (w *World) RoundEnd() { coordinator.SymRoundEnd(w.Co); w.Deliver() }

func (w *World) Post(c *client.DissentClient, addr string) { client.SymPost(c, addr); w.Deliver() }
func (w *World) Request(c *client.DissentClient, n int)    { client.SymRequest(c, n); w.Deliver() }
func (w *World) VoteFor(c *client.DissentClient, i, f int) { client.SymVote(c, i, f); w.Deliver() }

// CheckClients is what every participating client relies on while a round is open.
func (w *World) CheckClients(when string) {
	for _, c := range w.Cl {
		nym := c.Suite.Point().Mul(w.Co.G, c.PrivateKey)
		vs.Assert(when+": pseudonym", c.OnetimePseudoNym.Equal(nym))
		comm, ok := w.Co.EndingCommMap[nym.String()]
		vs.Assert(when+": listed", ok)
		vs.Assert(when+": own entry", c.PCommr != nil && c.PCommr.Equal(comm))
		vs.Assert(when+": opens", c.PedersenBase.Verify(c.Suite.Secret().SetInt64(int64(c.Reputation)), c.R, comm))
		vs.Assert(when+": same generators", c.PedersenBase.GT.Equal(w.Co.PedersenBase.GT) && c.PedersenBase.HT.Equal(w.Co.PedersenBase.HT) && c.G.Equal(w.Co.G))
		for _, s := range w.Sv {
			comm, ok := s.EndingCommMap[nym.String()]
			vs.Assert(when+": listed at every server", ok)
			vs.Assert(when+": same entry at every server", c.PCommr.Equal(comm))
		}
	}
	for _, s := range w.Sv {
		vs.Assert(when+": same generators at every server", s.PedersenBase.GT.Equal(w.Co.PedersenBase.GT) && s.PedersenBase.HT.Equal(w.Co.PedersenBase.HT))
	}
}
