//sym:dir cmd
//sym:use common/world.go
package main

import (
	"math/big"

	"zRep/cmd/client"
	"zRep/proto"
	"zRep/util"
	vs "zRep/verifsym"
)

// open is a deployment with a provider, two posted bridges and an open round.
func open(servers int) (*World, *client.DissentClient) {
	w := NewWorld(servers)
	w.Announce()
	a := w.Join()
	w.RoundEnd()
	w.Announce()
	w.Post(a, "192.0.2.1:1")
	w.Post(a, "192.0.2.1:2")
	return w, a
}

// refused: neither the coordinator nor a server did anything about the request
func (w *World) refused(before int) {
	vs.Assert("nothing sent", vs.Sent() == before+1)
	for _, c := range w.Cl {
		vs.Assert("nothing delivered", len(c.Assignments) == 0)
	}
}

// a client that claims another reputation than it has
func Sym_C28_claims() {
	w, a := open(1)
	true_ := a.Reputation
	n := vs.Choose("n", 8)
	claim := n + []int{0, 1, 6}[vs.Choose("more", 3)]
	if claim == true_ {
		return
	}
	a.Reputation = claim
	before := vs.Sent()
	w.Request(a, n)
	w.refused(before)
}

// a client that is not in the table of the round
func Sym_C28_not_listed() {
	w, a := open(1)
	key := vs.Secret(w.Co.Suite, "stranger")
	s := *a
	s.PrivateKey = key
	s.OnetimePseudoNym = w.Co.Suite.Point().Mul(w.Co.G, key)
	s.Reputation, s.R = 5, a.R
	switch vs.Choose("entry", 2) {
	case 0:
		s.PCommr = a.PCommr
	case 1:
		s.PCommr = s.PedersenBase.CommitWithR(w.Co.Suite.Secret().SetInt64(5), a.R)
	}
	before := vs.Sent()
	client.SymRequest(&s, vs.Choose("n", 6))
	w.Deliver()
	w.refused(before)
}

// a request with the pseudonym of somebody else
func Sym_C28_not_own() {
	w, a := open(1)
	s := *a
	s.PrivateKey = vs.Secret(w.Co.Suite, "stranger")
	before := vs.Sent()
	client.SymRequest(&s, vs.Choose("n", 6))
	w.Deliver()
	w.refused(before)
}

// a server, asked to sign for a request that is not the one that was proven
func Sym_C28_server() {
	w, a := open(1)
	var pm map[string]interface{}
	w.Keep = func(to string, e *proto.Event) bool {
		if e.EventType == proto.SIGN_ASSIGNMENTS {
			pm = e.Params
			return true
		}
		return false
	}
	w.Request(a, 1)
	vs.Assert("asked", pm != nil)
	suite := w.Co.Suite
	bad := true
	point := func(k string) {
		old := suite.Point()
		vs.Assert("point", old.UnmarshalBinary(pm[k].([]byte)) == nil)
		p := suite.Point().Add(old, suite.Point().Mul(nil, vs.AnySecret(suite, "d")))
		pm[k] = util.EncodePoint(p)
		bad = !p.Equal(old)
	}
	switch vs.Choose("what", 8) {
	case 0:
		pm["ind"] = vs.Int("ind", -1<<63, 1<<63-1)
		bad = pm["ind"].(int) != 1
	case 1:
		point("PCommind")
	case 2:
		point("PCommd")
	case 3:
		point("nym")
	case 4:
		s := vs.AnySecret(suite, "rind")
		old := suite.Secret()
		vs.Assert("secret", old.UnmarshalBinary(pm["rind"].([]byte)) == nil)
		pm["rind"], _ = s.MarshalBinary()
		bad = !s.Equal(old)
	case 5:
		v := vs.Elem("fo", w.Co.FujiOkamBase.N)
		bad = v.Cmp(new(big.Int).SetBytes(pm["FOCommd"].([]byte))) != 0
		pm["FOCommd"] = v.Bytes()
	case 6:
		arg := util.DecodeARGequal(pm["arg_equal"].([]byte))
		d := vs.AdvBig("s1", nil, nil)
		bad = d.Sign() != 0
		arg.S1 = new(big.Int).Add(arg.S1, d)
		pm["arg_equal"] = util.EncodeARGequal(arg)
	case 7:
		bad = false
	}
	w.Keep = nil
	n := vs.Sent()
	w.tell(w.Co.LocalAddr.String(), w.Sv[0].LocalAddr.String(), proto.SIGN_ASSIGNMENTS, pm)
	vs.Assert("one answer", vs.Sent() == n+2)
	e, _ := util.DecodeEvent(vs.SentData(n + 1))
	vs.Assert("an answer", e.EventType == proto.GOT_SIGNS)
	_, signed := e.Params["signatures"]
	vs.Assert("signed only if proven", signed == !bad)
	vs.Assert("says so", e.Params["success"].(bool) == !bad)
}
