//sym:dir cmd/server
//sym:use common/hop.go
package server

import (
	"zRep/proto"
	"zRep/util"
	vs "zRep/verifsym"
)

// announced gives pm, the announcement of table t, to s and checks what it passes on.
func announced(s *AnonServer, t *table, pm pmap) (*table, pmap) {
	rk := s.Roundkey
	// what is drawn from here on depends on nothing drawn before
	vs.RevealPast()
	to, l := give(s, proto.ANNOUNCEMENT, pm)
	vs.Assert("one message", len(l) == 1)
	vs.Assert("an announcement for the next hop", l[0].EventType == proto.ANNOUNCEMENT && to[0] == s.NextHop.String())
	want := t.raised(rk)
	o := t.follows(l[0].Params, want)
	vs.Assert("round key kept", s.Roundkey.Equal(rk))
	o.g = util.DecodePoint(s.Suite, l[0].Params["g"].([]byte))
	if t.g == nil {
		vs.Assert("first generator", o.g.Equal(s.Suite.Point().Mul(nil, rk)))
	} else {
		vs.Assert("generator", o.g.Equal(s.Suite.Point().Mul(t.g, rk)))
	}
	vs.Assert("remembers", len(s.KeyMap) == len(t.keys))
	for i, k := range want {
		vs.Assert("remembers the key", s.KeyMap[k.String()] != nil && s.KeyMap[k.String()].Equal(t.keys[i]))
	}
	return o, l[0].Params
}
