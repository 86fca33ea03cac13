//sym:dir cmd
//sym:use common/world.go
package main

import (
	"strconv"

	"zRep/cmd/bridge"
	"zRep/cmd/client"
	"zRep/proto"
	vs "zRep/verifsym"

	"zRep/util"
)

// checkServed: the requester holds min(n, posted) assignments, each with every signature.
func (w *World) checkServed(c, provider *client.DissentClient, n, posted int) {
	want := n
	if posted < n {
		want = posted
	}
	vs.Assert("assignments", len(c.Assignments) == want)
	for _, info := range c.Assignments {
		vs.Assert("names the requester", info.Assignment.NymR.Equal(c.OnetimePseudoNym))
		vs.Assert("names the provider", info.Assignment.Nym.Equal(provider.OnetimePseudoNym))
		sigs := util.Decode2DByteArray(info.ByteSignatures)
		vs.Assert("as many signatures", len(sigs) == len(w.Sv)+1)
		msg := bridge.EncodeAssignment(info.Assignment)
		for i, s := range w.Sv {
			vs.Assert("server signature", util.ElGamalVerify(s.Suite, msg, s.PublicKey, sigs[i], nil) == nil)
		}
		vs.Assert("coordinator signature", util.ElGamalVerify(w.Co.Suite, msg, w.Co.PublicKey, sigs[len(w.Sv)], nil) == nil)
	}
}

// checkAccepted: the coordinator and every server accept the proof in the request, even
// where there is nothing to assign.
func (w *World) checkAccepted(mark int) {
	n := 0
	for i := mark; i < vs.Sent(); i++ {
		e, _ := util.DecodeEvent(vs.SentData(i))
		if e.EventType != proto.REQUEST_BRIDGES {
			continue
		}
		n++
		nym := util.DecodePoint(w.Co.Suite, e.Params["nym"].([]byte)).String()
		vs.Assert("accepted by the coordinator", bridge.VerifyInd(e.Params, w.Co.EndingCommMap[nym], w.Co.Suite, w.Co.PedersenBase, w.Co.FujiOkamBase))
		for _, s := range w.Sv {
			vs.Assert("accepted by the server", bridge.VerifyInd(e.Params, s.EndingCommMap[nym], s.Suite, s.PedersenBase, s.FujiOkamBase))
		}
	}
	vs.Assert("one request", n == 1)
}

// any number up to the reputation, any number of posted bridges
func Sym_C27_request() {
	w := NewWorld(1)
	w.Announce()
	a := w.Join()
	w.RoundEnd()
	w.Announce()
	posted := vs.Choose("posted", 4)
	for i := 0; i < posted; i++ {
		w.Post(a, "192.0.2.1:"+strconv.Itoa(i+1))
	}
	n := vs.Choose("n", 6)
	mark := vs.Sent()
	w.Request(a, n)
	w.checkAccepted(mark)
	w.checkServed(a, a, n, posted)
}

// two or three servers, a provider and a requester
func Sym_C27_servers() {
	servers := 2
	if vs.Thorough() {
		servers += vs.Choose("servers", 2)
	}
	w := NewWorld(servers)
	w.Announce()
	a := w.Join()
	b := w.Join()
	w.RoundEnd()
	w.Announce()
	w.Post(a, "192.0.2.1:1")
	w.Post(a, "192.0.2.1:2")
	w.Request(b, 2)
	w.checkServed(b, a, 2, 2)
	vs.Assert("nothing for others", len(a.Assignments) == 0)
}

// in a later round, after the reputation has changed
func Sym_C27_later() {
	w := NewWorld(1)
	w.Announce()
	a := w.Join()
	w.RoundEnd()
	w.Announce()
	d := vs.Choose("diff", 4) - 2
	w.Co.ReputationDiffMap[a.OnetimePseudoNym.String()] = d
	w.RoundEnd()
	w.Announce()
	posted := bridge.StartingCredit + 2
	for i := 0; i < posted; i++ {
		w.Post(a, "192.0.2.1:"+strconv.Itoa(i+1))
	}
	w.Request(a, a.Reputation)
	w.checkServed(a, a, bridge.StartingCredit+d, posted)
}

// two requests of the same client in one round
func Sym_C27_twice() {
	w := NewWorld(1)
	w.Announce()
	a := w.Join()
	w.RoundEnd()
	w.Announce()
	for i := 0; i < 3; i++ {
		w.Post(a, "192.0.2.1:"+strconv.Itoa(i+1))
	}
	w.Request(a, 1)
	w.checkServed(a, a, 1, 3)
	w.Request(a, 2)
	w.checkServed(a, a, 3, 3)
}
