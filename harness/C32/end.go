//sym:dir cmd/server
//sym:use common/announced.go
package server

import (
	"strconv"

	"zRep/proto"
	"zRep/util"
	vs "zRep/verifsym"

	"github.com/dedis/crypto/abstract"
)

// closing is the table at the end of the round: any values and generators, the keys of t in any
// order, perhaps without one of them. It returns the original key of each place as well.
func closing(name string, t *table, orig []abstract.Point, omit bool) (*table, []abstract.Point) {
	o := anyTable(t.suite, 0)
	o.ht = t.suite.Point().Mul(nil, vs.Secret(t.suite, name+"ht"))
	n := len(t.keys)
	rot, rev, out := 0, false, n
	if n > 5 {
		rot, rev = 3, true
	} else if n > 1 {
		rot = vs.Choose(name+"rotated", n)
	}
	if n > 2 && n <= 5 {
		rev = vs.Choose(name+"reversed", 2) == 1
	}
	if omit && n > 5 {
		out = n - 1 - vs.Choose(name+"left out", 2)*(n+1)
	} else if omit {
		out = vs.Choose(name+"left out", n+1)
	}
	var want []abstract.Point
	for i := 0; i < n; i++ {
		j := (i + rot) % n
		if rev {
			j = n - 1 - j
		}
		if j == out {
			continue
		}
		o.keys = append(o.keys, t.keys[j])
		o.vals = append(o.vals, vs.AnySecret(t.suite, name+"val"+strconv.Itoa(i)))
		want = append(want, orig[j])
	}
	return o, want
}

// ended gives the closing table t to s, where pm is the message that carries it.
func ended(s *AnonServer, t *table, want []abstract.Point, pm pmap) (*table, pmap) {
	rk := s.Roundkey
	// what is drawn from here on depends on nothing drawn before
	vs.RevealPast()
	to, l := give(s, proto.ROUND_END, pm)
	vs.Assert("one message", len(l) == 1)
	vs.Assert("a round end for the previous hop", l[0].EventType == proto.ROUND_END && to[0] == s.PreviousHop.String())
	o := t.follows(l[0].Params, want)
	vs.Assert("round key renewed", !s.Roundkey.Equal(rk))
	// not from the exponent of the values either
	a, b := vs.AdvSecret(s.Suite, "factor"), vs.AdvSecret(s.Suite, "term")
	vs.Assert("round key fresh", !t.pow(s.Roundkey).Equal(s.Suite.Point().Add(s.Suite.Point().Mul(o.ht, a), t.pow(b))))
	vs.Assert("forgets", len(s.KeyMap) == 0)
	return o, l[0].Params
}

func start(t *table) pmap {
	pm := t.params()
	pm["is_start"] = true
	return pm
}

// newcomer passes a registration through s and returns the key it gives away and the one it got.
func newcomer(s *AnonServer, name string, key abstract.Point) abstract.Point {
	rk := s.Roundkey
	comm := vs.Bytes(name+"comm", 2)
	to, l := give(s, proto.CLIENT_REGISTER_SERVERSIDE, pmap{"public_key": util.EncodePoint(key), "addr": "192.0.2.1:7", "pcomm": comm})
	vs.Assert("passed on", len(l) == 1 && to[0] == s.NextHop.String() && l[0].EventType == proto.CLIENT_REGISTER_SERVERSIDE)
	k := util.DecodePoint(s.Suite, l[0].Params["public_key"].([]byte))
	vs.Assert("raised", k.Equal(s.Suite.Point().Mul(key, rk)))
	vs.Assert("address and commitment untouched", l[0].Params["addr"].(string) == "192.0.2.1:7" && string(l[0].Params["pcomm"].([]byte)) == string(comm))
	return k
}

// one server: a round, with newcomers, closed in any order
func oneServer(n, fresh int) {
	s := newHop()
	t := anyTable(s.Suite, n)
	mid, _ := announced(s, t, t.params())
	orig := make([]abstract.Point, 0)
	for _, k := range mid.keys {
		orig = append(orig, s.KeyMap[k.String()])
	}
	for i := 0; i < fresh; i++ {
		name := "new" + strconv.Itoa(i)
		key := s.Suite.Point().Mul(nil, vs.Secret(s.Suite, name))
		mid.keys = append(mid.keys, newcomer(s, name, key))
		orig = append(orig, key)
	}
	c, want := closing("", mid, orig, true)
	ended(s, c, want, start(c))
}

func Sym_C32_one() {
	n := vs.Choose("clients", 4)
	oneServer(n, vs.Choose("newcomers", 4-n))
}

func SymT_C32_one4() {
	f := vs.Choose("newcomers", 3)
	oneServer(4-f, f)
}

// two servers: the first one accepts what the second one makes of the table, and undoes its own
// step on it. Newcomers come in the first round; later rounds have new round keys
func twoServers(n, fresh, rounds int) {
	p, s := newHop(), newHop()
	t := anyTable(p.Suite, n)
	for r := 0; r < rounds; r++ {
		t.g = nil
		mid, pm := announced(p, t, t.params())
		last, _ := announced(s, mid, pm)
		var first, second []abstract.Point // what the keys of last were before s and before p
		for _, k := range last.keys {
			m := s.KeyMap[k.String()]
			second = append(second, m)
			first = append(first, p.KeyMap[m.String()])
		}
		for i := 0; i < fresh && r == 0; i++ {
			name := "new" + strconv.Itoa(r) + strconv.Itoa(i)
			key := p.Suite.Point().Mul(nil, vs.Secret(p.Suite, name))
			k := newcomer(p, name, key)
			first, second = append(first, key), append(second, k)
			last.keys = append(last.keys, newcomer(s, name, k))
		}
		orig := map[string]abstract.Point{}
		for i, k := range second {
			orig[k.String()] = first[i]
		}
		c, want := closing("round"+strconv.Itoa(r), last, second, false)
		c, pm = ended(s, c, want, start(c))
		want = nil
		for _, k := range c.keys {
			want = append(want, orig[k.String()])
		}
		t, _ = ended(p, c, want, pm)
	}
}

func Sym_C32_two() {
	n := vs.Choose("clients", 3)
	twoServers(n, vs.Choose("newcomers", 3-n), 1)
}

func Sym_C32_rounds() { twoServers(1, 1, 2) }

func SymT_C32_two3() {
	f := vs.Choose("newcomers", 3)
	twoServers(3-f, f, 1)
}

// as many clients as a default deployment has
func Sym_C32_long() {
	vs.FixDraws(true)
	oneServer(11, 2)
}

func Sym_C32_long_two() {
	vs.FixDraws(true)
	twoServers(4, 2, 2)
}
