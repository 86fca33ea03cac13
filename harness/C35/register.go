//sym:dir cmd
//sym:use common/world.go
package main

import (
	"zRep/cmd/bridge"
	"zRep/cmd/client"
	"zRep/cmd/coordinator"
	"zRep/proto"
	vs "zRep/verifsym"

	"github.com/dedis/crypto/abstract"
)

// the table entry the coordinator keeps for a newcomer until the round ends
func (w *World) checkNewcomer(c *client.DissentClient, pos int) {
	vs.Assert("buffered", len(w.Co.NewClientsBuffer) == pos+1)
	w.checkEntry(c, pos)
}

func (w *World) checkEntry(c *client.DissentClient, pos int) {
	e := w.Co.NewClientsBuffer[pos]
	nym := c.Suite.Point().Mul(w.Co.G, c.PrivateKey)
	vs.Assert("pseudonym", e.Nym.Equal(nym))
	vs.Assert("client's own pseudonym", c.OnetimePseudoNym.Equal(nym) && c.G.Equal(w.Co.G))
	vs.Assert("starting credit", c.Reputation == bridge.StartingCredit)
	vs.Assert("commitment opens", w.Co.PedersenBase.Verify(c.Suite.Secret().SetInt64(int64(bridge.StartingCredit)), c.R, e.PComm))
	vs.Assert("address known", w.Co.Clients[c.PublicKey.String()].String() == c.LocalAddr.String())
	// the servers map the pseudonym back
	k := e.Nym
	for i := len(w.Sv) - 1; i >= 0; i-- {
		k2, ok := w.Sv[i].KeyMap[k.String()]
		vs.Assert("server knows it", ok)
		k = k2
	}
	vs.Assert("maps back to the public key", k.Equal(c.PublicKey))
}

// the table after the round end lists every client under its own public key
func (w *World) checkBeginning() {
	for _, c := range w.Cl {
		w.checkOne(c)
	}
}

func (w *World) checkOne(c *client.DissentClient) {
	s := c.PublicKey.String()
	comm, ok := w.Co.BeginningCommMap[s]
	vs.Assert("in the next table", ok && w.Co.BeginningKeyMap[s].Equal(c.PublicKey))
	vs.Assert("next commitment opens", w.Co.PedersenBase.Verify(c.Suite.Secret().SetInt64(int64(c.Reputation)), c.R, comm))
}

func (w *World) checkNext(keys []abstract.Point) {
	w.RoundEnd()
	w.checkBeginning()
	vs.Assert("table size", len(w.Co.BeginningCommMap) == len(keys)+len(w.Cl))
	for _, k := range keys {
		vs.Assert("others stay", w.Co.BeginningKeyMap[k.String()].Equal(k))
	}
	w.Announce()
	w.CheckClients("next round")
	for _, c := range w.Cl {
		vs.Assert("takes part", c.Status == client.MESSAGE)
	}
}

func (w *World) fake(n int) (keys []abstract.Point) {
	coordinator.SymFake(w.Co, n)
	for _, k := range w.Co.BeginningKeyMap {
		keys = append(keys, k)
	}
	return
}

// one newcomer; 1 to 3 servers; 0 to 2 others
func Sym_C35_one() {
	others := vs.Choose("others", 2)
	if vs.Thorough() {
		others = vs.Choose("more", 3)
	}
	servers := 1 + vs.Choose("servers", 2)
	if vs.Thorough() && others < 2 && vs.Choose("third", 2) == 1 {
		servers = 3
	}
	w := NewWorld(servers)
	keys := w.fake(others)
	w.Announce()
	c := w.Join()
	w.checkNewcomer(c, 0)
	w.checkNext(keys)
}

// two newcomers in one round, then one more in the next
func Sym_C35_more() {
	w := NewWorld(1)
	w.Announce()
	a := w.Join()
	w.checkNewcomer(a, 0)
	b := w.Join()
	w.checkNewcomer(b, 1)
	w.checkNext(nil)
	c := w.Join()
	w.checkNewcomer(c, 0)
	if vs.Thorough() {
		w.checkNext(nil)
	}
}

// somebody else's score changes while a newcomer registers
func Sym_C35_beside() {
	w := NewWorld(2)
	w.Announce()
	a := w.Join()
	w.checkNext(nil)
	w.Co.ReputationDiffMap[a.OnetimePseudoNym.String()] = vs.Int("diff", -1000, 1000)
	b := w.Join()
	w.checkNewcomer(b, 0)
	w.RoundEnd()
	w.checkBeginning()
	vs.Assert("newcomer starts at the starting credit", b.Reputation == bridge.StartingCredit)
}

// a registration that arrives while no round is open takes effect once one is
func Sym_C35_phases() {
	when := vs.Choose("when", 4)
	servers, n := 1, 1
	switch {
	case vs.Thorough():
		servers, n = 1+vs.Choose("servers", 2), 1+vs.Choose("newcomers", 2)
	case when == 0:
		n = 2
	case when == 1 || when == 2:
		servers = 1 + vs.Choose("servers", 2)
	default:
		n = 3
	}
	w := NewWorld(servers)
	add := func() (cs []*client.DissentClient) {
		for i := 0; i < n; i++ {
			cs = append(cs, w.Join())
		}
		return
	}
	// held stops the protocol at its k-th message of a kind while newcomers register
	held := func(typ, k int, step func()) {
		i := 0
		w.Keep = func(to string, e *proto.Event) bool {
			if e.EventType == typ && to != coAddr || e.EventType == typ && i == k {
				i++
				return i == k+1
			}
			return false
		}
		step()
		w.Keep = nil
		add()
		for _, m := range w.Kept {
			w.One(m.To, m.Data)
		}
		w.Deliver()
	}
	pos := 0
	switch when {
	case 0: // before the first round
		add()
		w.Announce()
	case 1: // during the announcement of a later round
		w.Announce()
		w.Join()
		w.RoundEnd()
		pos = 1
		held(proto.ANNOUNCEMENT, vs.Choose("hop", len(w.Sv)+1), w.Announce)
	case 2: // while the round ends
		w.Announce()
		w.Join()
		pos = 1
		held(proto.ROUND_END, vs.Choose("hop", len(w.Sv)+1), w.RoundEnd)
		w.Announce()
	case 3: // between two rounds
		w.Announce()
		w.Join()
		w.RoundEnd()
		pos = 1
		add()
		w.Announce()
	}
	vs.Assert("all registered", len(w.Co.NewClientsBuffer) == n)
	for i := 0; i < n; i++ {
		w.checkEntry(w.Cl[pos+i], i)
	}
	w.checkNext(nil)
}

// a busy round: several scores change, bridges were posted and got, and several clients register
func Sym_C35_busy() {
	vs.FixDraws(true)
	w := NewWorld(1)
	w.Announce()
	for i := 0; i < 4; i++ {
		w.Join()
	}
	w.checkNext(nil)
	old := w.Cl
	w.Join()
	for i, c := range old {
		w.Post(c, "192.0.2.1:"+string(rune('1'+i)))
	}
	w.Request(old[0], 4)
	vs.Assert("served", len(old[0].Assignments) == 4)
	w.Join()
	w.Vote()
	w.Join()
	for i := range old {
		w.VoteFor(old[0], i, []int{1, -1, -1, 1}[i])
	}
	w.Join()
	w.checkNext(nil)
	sum := 0
	for i, c := range w.Cl {
		sum += c.Reputation - bridge.StartingCredit
		vs.Assert("newcomers start at the starting credit", i < len(old) || c.Reputation == bridge.StartingCredit)
	}
	vs.Assert("votes counted", sum == 0)
}
