//sym:dir cmd
//sym:use common/world.go
package main

import (
	"zRep/cmd/coordinator"
	"zRep/cmd/server"
	"zRep/proto"
	"zRep/util"
	vs "zRep/verifsym"
)

// setup registers servers that start together, the messages to different participants arriving in any
// order. The draws of all but one server are known to the others.
func setup(servers, honest int, together bool) *World {
	vs.RevealDraws(true)
	w := &World{Co: coordinator.SymNew(coAddr)}
	for i := 0; i < servers; i++ {
		vs.RevealDraws(i != honest)
		s := server.SymNew(place(i, 12346), coAddr)
		w.Sv = append(w.Sv, s)
		server.SymRegister(s)
		vs.RevealDraws(true)
		if !together {
			w.settle(honest, false)
		}
	}
	w.settle(honest, together)
	return w
}

// settle hands out the messages, those to one participant in the order in which they were sent.
func (w *World) settle(honest int, any bool) {
	done := map[int]bool{}
	from := w.pos
	for {
		// the next message to each participant
		next := []int{}
		seen := map[string]bool{}
		for i := from; i < vs.Sent(); i++ {
			if to := vs.SentAddr(i); !done[i] && !seen[to] {
				seen[to] = true
				next = append(next, i)
			}
		}
		if len(next) == 0 {
			break
		}
		i := next[0]
		if any {
			i = next[vs.Choose("next", len(next))]
		}
		done[i] = true
		to := vs.SentAddr(i)
		if honest < len(w.Sv) && to == w.Sv[honest].LocalAddr.String() {
			if e, _ := util.DecodeEvent(vs.SentData(i)); e.EventType == proto.SERVER_REGISTER_REPLY {
				// its contribution is not what it has used for anything else
				vs.RevealPast()
			}
			vs.RevealDraws(false)
		}
		w.One(to, vs.SentData(i))
		vs.RevealDraws(true)
	}
	w.pos = vs.Sent()
}

// ready checks the parameters that everybody has, and the ring of the servers.
func (w *World) ready(honest int) {
	vs.Assert("all registered", len(w.Co.ServerList) == len(w.Sv))
	byAddr := map[string]*server.AnonServer{}
	for _, s := range w.Sv {
		byAddr[s.LocalAddr.String()] = s
	}
	prev := w.Co.LocalAddr.String()
	for i, info := range w.Co.ServerList {
		s := byAddr[info.Addr.String()]
		vs.Assert("each once", s != nil)
		delete(byAddr, info.Addr.String())
		vs.Assert("its own key", info.PublicKey.Equal(s.PublicKey))
		vs.Assert("connected", s.IsConnected)
		next := w.Co.LocalAddr.String()
		if i+1 < len(w.Co.ServerList) {
			next = w.Co.ServerList[i+1].Addr.String()
		}
		vs.Assert("neighbours", s.PreviousHop.String() == prev && s.NextHop.String() == next)
		prev = info.Addr.String()
		f, g := s.FujiOkamBase, w.Co.FujiOkamBase
		vs.Assert("modulus", f.N.Cmp(g.N) == 0)
		vs.Assert("generators", f.G1.Equal(g.G1) && f.G2.Equal(g.G2) && f.G3.Equal(g.G3) && f.G4.Equal(g.G4) && f.G5.Equal(g.G5) && f.G6.Equal(g.G6) && f.H1.Equal(g.H1))
		vs.Assert("commitment generators", s.PedersenBase.HT.Equal(w.Co.PedersenBase.HT) && s.PedersenBase.GT.Equal(w.Co.PedersenBase.GT))
	}
	suite := w.Co.Suite
	vs.Assert("nobody knows the logarithm without the other", !w.Co.PedersenBase.HT.Equal(suite.Point().Mul(nil, vs.AdvSecret(suite, "guess"))))
	vs.Assert("nor relative to the other generator", !w.Co.PedersenBase.HT.Equal(suite.Point().Mul(w.Co.PedersenBase.GT, vs.AdvSecret(suite, "guess2"))))
}

func (w *World) start(honest int) {
	coordinator.SymConfig(w.Co)
	w.settle(honest, false)
	w.Co.Status = coordinator.READY_FOR_NEW_ROUND
}

// servers that start one after the other
func Sym_C46_sequence() {
	n := 1 + vs.Choose("servers", 4)
	honest := vs.Choose("honest", n)
	w := setup(n, honest, false)
	w.start(honest)
	w.ready(honest)
}

// servers that start together
func Sym_C46_together() {
	n := 2 + vs.Choose("servers", 2)
	if vs.Thorough() {
		n = 2 + vs.Choose("more", 3)
	}
	honest := vs.Choose("honest", n)
	w := setup(n, honest, true)
	w.start(honest)
	w.ready(honest)
}

// a client that joins then has the same parameters
func Sym_C46_client() {
	vs.FixDraws(true)
	n := 1 + vs.Choose("servers", 3)
	w := setup(n, n, n == 2)
	w.start(n)
	vs.RevealDraws(false)
	w.Announce()
	c := w.Join()
	f, g := c.FujiOkamBase, w.Co.FujiOkamBase
	vs.Assert("modulus", f.N.Cmp(g.N) == 0)
	vs.Assert("generators", f.G1.Equal(g.G1) && f.G2.Equal(g.G2) && f.G3.Equal(g.G3) && f.G4.Equal(g.G4) && f.G5.Equal(g.G5) && f.G6.Equal(g.G6) && f.H1.Equal(g.H1))
	vs.Assert("coordinator's key", c.ControllerPublicKey.Equal(w.Co.PublicKey))
	w.RoundEnd()
	w.Announce()
	w.CheckClients("first round")
}
