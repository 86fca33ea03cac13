//sym:dir cmd/server
//sym:use common/hop.go
package server

import (
	"strconv"

	"zRep/proto"
	"zRep/util"
	vs "zRep/verifsym"

	"github.com/dedis/crypto/abstract"
)

// sent is what an honest neighbour sends: an announcement or a round end with a shuffle of n.
func carried(n int) (int, pmap, *table) {
	return carriedBy(newHop(), n)
}

func carriedBy(s *AnonServer, n int) (int, pmap, *table) {
	t := anyTable(s.Suite, n)
	typ := []int{proto.ANNOUNCEMENT, proto.ROUND_END}[vs.Choose("message", 2)]
	pm := t.params()
	if typ == proto.ROUND_END {
		for _, k := range t.keys {
			s.KeyMap[k.String()] = k
		}
		pm["is_start"] = true
	}
	_, l := give(s, typ, pm)
	vs.Assert("a shuffle", len(l) == 1 && l[0].Params["shuffled"] != nil)
	return typ, l[0].Params, t
}

// taken says whether a server goes on after the message; if not, nothing may have been sent.
func taken(typ int, pm pmap) bool {
	s := newHop()
	for _, k := range util.ProtobufDecodePointList(pm["keys"].([]byte)) {
		s.KeyMap[k.String()] = k
	}
	n := vs.Sent()
	stopped := vs.Panics(func() { give(s, typ, pm) })
	vs.Assert("stops without sending, or sends one message", stopped == (vs.Sent() == n+1) && !stopped == (vs.Sent() == n+2))
	return !stopped
}

func copied(pm pmap) pmap {
	q := pmap{}
	for k, v := range pm {
		q[k] = v
	}
	return q
}

var lists = []string{"xbar", "ybar", "prev_keys", "prev_vals"}

// everything that is carried replaced by anything that can be made from it
func altered(n int) {
	typ, pm, _ := carried(n)
	suite := newHop().Suite
	gens := []abstract.Point{suite.Point().Base()}
	for _, f := range lists {
		gens = append(gens, util.ProtobufDecodePointList(pm[f].([]byte))...)
	}
	pub := util.DecodePoint(suite, pm["public_key"].([]byte))
	gens = append(gens, pub)
	same := true
	change := func(name string, p abstract.Point) abstract.Point {
		q := suite.Point().Null().Add(suite.Point().Null(), p)
		for i, g := range gens {
			q.Add(q, suite.Point().Mul(g, vs.AdvSecret(suite, name+"."+strconv.Itoa(i))))
		}
		same = same && q.Equal(p)
		return q
	}
	q := copied(pm)
	for _, f := range lists {
		l := util.ProtobufDecodePointList(pm[f].([]byte))
		for i := range l {
			l[i] = change(f+strconv.Itoa(i), l[i])
		}
		q[f] = util.ProtobufEncodePointList(l)
	}
	q["public_key"] = util.EncodePoint(change("public_key", pub))
	vs.Assert("goes on with the proven shuffle only", taken(typ, q) == same)
}

func Sym_C33_altered()   { altered(2) }
func SymT_C33_altered3() { altered(3) }

// two entries of one list exchanged
func Sym_C33_swapped() {
	n := 2 + vs.Choose("clients", 2)
	typ, pm, _ := carried(n)
	f := lists[vs.Choose("list", 4)]
	i := vs.Choose("place", n-1)
	l := util.ProtobufDecodePointList(pm[f].([]byte))
	same := l[i].Equal(l[n-1])
	l[i], l[n-1] = l[n-1], l[i]
	q := copied(pm)
	q[f] = util.ProtobufEncodePointList(l)
	vs.Assert("goes on with the proven order only", taken(typ, q) == same)
}

// a list that lost its last entry, or got another one
func Sym_C33_length() {
	typ, pm, _ := carried(2 + vs.Choose("clients", 2))
	q := copied(pm)
	f := lists[vs.Choose("list", 4)]
	l := util.ProtobufDecodePointList(pm[f].([]byte))
	switch vs.Choose("how", 3) {
	case 0:
		l = l[:len(l)-1]
	case 1:
		l = append(l, l[0])
	case 2:
		l = nil
	}
	q[f] = util.ProtobufEncodePointList(l)
	vs.Assert("stops", !taken(typ, q))
}

// the proof of another shuffle, or none
func Sym_C33_proof() {
	s := newHop()
	n := 2 + vs.Choose("clients", 2)
	vs.FixDraws(n == 3)
	typ, pm, _ := carriedBy(s, n)
	q := copied(pm)
	switch vs.Choose("how", 3) {
	case 0:
		other := newHop()
		if vs.Choose("same server", 2) == 1 {
			other = s
		}
		s2 := anyTable(s.Suite, n)
		for i := range s2.keys {
			s2.keys[i] = s.Suite.Point().Mul(nil, vs.Secret(s.Suite, "other"+strconv.Itoa(i)))
		}
		_, l := give(other, proto.ANNOUNCEMENT, s2.params())
		q["proof"] = l[0].Params["proof"]
	case 1:
		q["proof"] = []byte{}
	case 2:
		p := pm["proof"].([]byte)
		q["proof"] = p[:len(p)-1]
	}
	if k := vs.Choose("marked", 4); k > 0 {
		q["shuffled"] = []interface{}{false, 0, ""}[k-1]
	}
	if vs.Choose("listed", 2) == 1 {
		// the same entry in all places of the table
		for _, f := range []string{"keys", "vals"} {
			l := util.ProtobufDecodePointList(pm[f].([]byte))
			for i := range l {
				l[i] = l[0]
			}
			q[f] = util.ProtobufEncodePointList(l)
		}
	}
	vs.Assert("stops", !taken(typ, q))
}

// the honest message goes through
func Sym_C33_honest() {
	typ, pm, _ := carried(2 + vs.Choose("clients", 2))
	vs.Assert("goes on", taken(typ, pm))
}

// longer tables
func Sym_C33_honest_long() {
	vs.FixDraws(true)
	typ, pm, _ := carried(4 + vs.Choose("clients", 2))
	vs.Assert("goes on", taken(typ, pm))
}

func Sym_C33_last_long() {
	vs.FixDraws(true)
	n := 4 + vs.Choose("clients", 2)
	typ, pm, _ := carried(n)
	f := lists[vs.Choose("list", 4)]
	i := vs.Choose("place", n)
	l := util.ProtobufDecodePointList(pm[f].([]byte))
	suite := newHop().Suite
	d := suite.Point().Mul(nil, vs.AdvSecret(suite, "d"))
	vs.Assume(!d.Equal(suite.Point().Null()))
	l[i] = suite.Point().Add(l[i], d)
	q := copied(pm)
	q[f] = util.ProtobufEncodePointList(l)
	vs.Assert("stops", !taken(typ, q))
}
