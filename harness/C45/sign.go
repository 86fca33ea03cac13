//sym:dir cmd
//sym:use common/world.go
package main

import (
	"bytes"
	"strconv"

	"zRep/cmd/bridge"
	"zRep/cmd/client"
	"zRep/cmd/server"
	"zRep/proto"
	"zRep/util"
	vs "zRep/verifsym"

	"github.com/dedis/crypto/abstract"
)

type pmap = map[string]interface{}

// asked is a server of an open round, and the message by which it is asked to sign for a request of n bridges.
func asked(n, posted int) (*World, *client.DissentClient, pmap) {
	vs.FixDraws(true)
	w := NewWorld(1)
	w.Announce()
	a, b := w.Seat(), w.Seat()
	for i := 0; i < posted; i++ {
		w.Post(b, "192.0.2.1:"+strconv.Itoa(i))
	}
	var pm pmap
	w.Keep = func(to string, e *proto.Event) bool {
		if e.EventType == proto.SIGN_ASSIGNMENTS {
			pm = e.Params
			return true
		}
		return false
	}
	w.Request(a, n)
	vs.Assert("asked", pm != nil)
	w.Keep = nil
	return w, a, pm
}

// answer is what the server answers.
func (w *World) answer(s *server.AnonServer, pm pmap) (bool, []bridge.Assignment, [][]byte) {
	n := vs.Sent()
	w.tell(w.Co.LocalAddr.String(), s.LocalAddr.String(), proto.SIGN_ASSIGNMENTS, pm)
	vs.Assert("one answer", vs.Sent() == n+2 && vs.SentAddr(n+1) == w.Co.LocalAddr.String())
	e, _ := util.DecodeEvent(vs.SentData(n + 1))
	vs.Assert("an answer", e.EventType == proto.GOT_SIGNS)
	if !e.Params["success"].(bool) {
		_, signed := e.Params["signatures"]
		vs.Assert("nothing signed", !signed)
		return false, nil, nil
	}
	return true, bridge.DecodeAssignmentList(e.Params["assignments"].([]byte)), util.Decode2DByteArray(e.Params["signatures"].([]byte))
}

// covers checks that just these assignments are signed.
func (w *World) covers(s *server.AnonServer, l, got []bridge.Assignment, sigs [][]byte) {
	vs.Assert("a signature for each", len(got) == len(l) && len(sigs) == len(l))
	for i := range l {
		vs.Assert("the same assignments", bytes.Equal(bridge.EncodeAssignment(&l[i]), bridge.EncodeAssignment(&got[i])))
		vs.Assert("signed", util.ElGamalVerify(s.Suite, bridge.EncodeAssignment(&l[i]), s.PublicKey, sigs[i], nil) == nil)
	}
}

// more or fewer assignments than the proven number
func Sym_C45_number() {
	n := 1 + vs.Choose("requested", 5)
	w, a, pm := asked(n, 5)
	l := []bridge.Assignment{}
	k := vs.Choose("assignments", 8)
	for i := 0; i < k; i++ {
		l = append(l, bridge.Assignment{NymR: a.OnetimePseudoNym, Addr: "192.0.2.2:" + strconv.Itoa(i), Nym: w.Cl[1].OnetimePseudoNym})
	}
	pm["assignments"] = bridge.EncodeAssignmentList(l)
	ok, got, sigs := w.answer(w.Sv[0], pm)
	vs.Assert("signs no more than requested", ok == (k <= n))
	if ok {
		w.covers(w.Sv[0], l, got, sigs)
	}
}

// an assignment that names anybody else as its requester
func Sym_C45_requester() {
	n := 1 + vs.Choose("requested", 3)
	w, a, pm := asked(n, 3)
	l := bridge.DecodeAssignmentList(pm["assignments"].([]byte))
	vs.Assert("as requested", len(l) == n)
	i := vs.Choose("changed", n)
	suite := w.Co.Suite
	nym := suite.Point().Add(a.OnetimePseudoNym, suite.Point().Mul(nil, vs.AnySecret(suite, "d")))
	if vs.Choose("by", 2) == 1 {
		nym = suite.Point().Add(a.OnetimePseudoNym, suite.Point().Mul(w.Cl[1].OnetimePseudoNym, vs.AnySecret(suite, "d")))
	}
	l[i].NymR = nym
	pm["assignments"] = bridge.EncodeAssignmentList(l)
	ok, got, sigs := w.answer(w.Sv[0], pm)
	vs.Assert("signs for the requester only", ok == nym.Equal(a.OnetimePseudoNym))
	if ok {
		w.covers(w.Sv[0], l, got, sigs)
	}
}

// a request of an earlier round, by its pseudonym then or now
func Sym_C45_earlier() {
	w, a, pm := asked(1+vs.Choose("requested", 2), 2)
	w.RoundEnd()
	w.Announce()
	if vs.Choose("renamed", 2) == 1 {
		pm["nym"] = util.EncodePoint(a.OnetimePseudoNym)
		l := bridge.DecodeAssignmentList(pm["assignments"].([]byte))
		for i := range l {
			l[i].NymR = abstract.Point(a.OnetimePseudoNym)
		}
		pm["assignments"] = bridge.EncodeAssignmentList(l)
	}
	ok, _, _ := w.answer(w.Sv[0], pm)
	vs.Assert("signs nothing", !ok)
}

// everything in the proven request and the assignments together
func Sym_C45_honest() {
	n := 1 + vs.Choose("requested", 5)
	posted := 1 + vs.Choose("posted", 5)
	w, _, pm := asked(n, posted)
	l := bridge.DecodeAssignmentList(pm["assignments"].([]byte))
	ok, got, sigs := w.answer(w.Sv[0], pm)
	vs.Assert("signs", ok)
	w.covers(w.Sv[0], l, got, sigs)
}
