//sym:dir cmd/server
//sym:use common/wserver.go
package server

import (
	"strconv"

	"zRep/proto"
	"zRep/util"
	vs "zRep/verifsym"

	"github.com/dedis/crypto/abstract"
)

type pmap = map[string]interface{}

const prevAddr, nextAddr = "127.0.0.1:7001", "127.0.0.1:7002"

// newHop is a server between two neighbours.
func newHop() *AnonServer {
	s := SymNew("127.0.0.1:7000", "127.0.0.1:12345")
	s.PreviousHop, s.NextHop = symAddr(prevAddr), symAddr(nextAddr)
	return s
}

// give hands a message to s and returns what it sends in answer.
func give(s *AnonServer, typ int, pm pmap) ([]string, []*proto.Event) {
	n := vs.Sent()
	util.SendEvent(symAddr(prevAddr), s.LocalAddr, &proto.Event{EventType: typ, Params: pm})
	data := vs.SentData(n)
	n++
	Handle(data, s)
	var to []string
	var l []*proto.Event
	for ; n < vs.Sent(); n++ {
		e, _ := util.DecodeEvent(vs.SentData(n))
		to, l = append(to, vs.SentAddr(n)), append(l, e)
	}
	return to, l
}

// table is a reputation table with the round's generators. The values and the first generator
// are known powers of the second, so that what is done to them can be told from it.
type table struct {
	suite abstract.Suite
	keys  []abstract.Point
	vals  []abstract.Secret // exponents of ht
	gt    abstract.Secret
	ht    abstract.Point
	g     abstract.Point
}

// anyTable has n different keys.
func anyTable(suite abstract.Suite, n int) *table {
	t := &table{suite: suite, ht: suite.Point().Mul(nil, vs.Secret(suite, "ht")), gt: vs.AnySecret(suite, "gt")}
	for i := 0; i < n; i++ {
		s := strconv.Itoa(i)
		t.keys = append(t.keys, suite.Point().Mul(nil, vs.Secret(suite, "key"+s)))
		t.vals = append(t.vals, vs.AnySecret(suite, "val"+s))
	}
	return t
}

func (t *table) pow(s abstract.Secret) abstract.Point { return t.suite.Point().Mul(t.ht, s) }

func (t *table) params() pmap {
	var vals []abstract.Point
	for _, v := range t.vals {
		vals = append(vals, t.pow(v))
	}
	pm := pmap{"keys": util.ProtobufEncodePointList(t.keys), "vals": util.ProtobufEncodePointList(vals),
		"GT": util.EncodePoint(t.pow(t.gt)), "HT": util.EncodePoint(t.ht)}
	if t.g != nil {
		pm["g"] = util.EncodePoint(t.g)
	}
	return pm
}

// follows checks that pm is table t with keys want in some order, each with its value, all
// values and both generators raised to one exponent other than 0 and 1. It returns the new table.
func (t *table) follows(pm pmap, want []abstract.Point) *table {
	n := len(t.keys)
	keys := util.ProtobufDecodePointList(pm["keys"].([]byte))
	vals := util.ProtobufDecodePointList(pm["vals"].([]byte))
	vs.Assert("as many keys", len(keys) == n)
	vs.Assert("as many values", len(vals) == n)
	o := &table{suite: t.suite, gt: t.gt, ht: util.DecodePoint(t.suite, pm["HT"].([]byte))}
	gt := util.DecodePoint(t.suite, pm["GT"].([]byte))
	vs.Assert("generators", gt.Equal(o.pow(t.gt)))
	vs.Assert("fresh", !o.ht.Equal(t.ht) && !o.ht.Equal(t.suite.Point().Null()) && !o.ht.Equal(t.pow(vs.AdvSecret(t.suite, "guess"))))
	used := make([]bool, n)
	for j := range keys {
		i := 0
		for i < n && !keys[j].Equal(want[i]) {
			i++
		}
		vs.Assert("a key of the table", i < n)
		vs.Assert("once", !used[i])
		used[i] = true
		vs.Assert("its value", vals[j].Equal(o.pow(t.vals[i])))
		o.keys, o.vals = append(o.keys, keys[j]), append(o.vals, t.vals[i])
	}
	return o
}

func (t *table) raised(s abstract.Secret) (l []abstract.Point) {
	for _, k := range t.keys {
		l = append(l, t.suite.Point().Mul(k, s))
	}
	return l
}
