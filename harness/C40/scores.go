//sym:dir cmd/coordinator
//sym:use common/wevt.go
package coordinator

import (
	"strconv"

	"zRep/proto"
	"zRep/util"
	vs "zRep/verifsym"

	"github.com/dedis/crypto/abstract"
)

// round is a coordinator at the end of the voting phase.
type round struct {
	*coord
	clients []string
	keys    []abstract.Point
	comms   []abstract.Point
	diffs   []int
	voted   []bool
}

func newRound(n, clients, servers int) *round {
	r := &round{coord: newCoord(servers)}
	r.PedersenBase.GT = r.Suite.Point().Mul(nil, vs.Secret(r.Suite, "GT"))
	r.PedersenBase.HT = r.Suite.Point().Mul(nil, vs.Secret(r.Suite, "HT"))
	for i := 0; i < clients; i++ {
		a := "192.0.2." + strconv.Itoa(i+1) + ":7"
		r.clients = append(r.clients, a)
		r.AddClient(r.Suite.Point().Mul(nil, vs.Secret(r.Suite, "client"+strconv.Itoa(i))), symAddr(a))
	}
	for i := 0; i < n; i++ {
		s := strconv.Itoa(i)
		comm := r.Suite.Point().Mul(nil, vs.AnySecret(r.Suite, "comm"+s))
		key := r.join(vs.Secret(r.Suite, "key"+s), comm)
		voted := i%3 != 1
		if n <= 3 {
			voted = vs.Choose("voted"+s, 2) == 1
		}
		r.add(key, comm, voted, s)
	}
	return r
}

// add notes a participant of the round, and any score change for it.
func (r *round) add(key, comm abstract.Point, voted bool, s string) {
	d := 0
	if voted {
		d = vs.Int("diff"+s, -1<<40, 1<<40)
		r.ReputationDiffMap[key.String()] = d
	}
	r.keys, r.comms, r.diffs, r.voted = append(r.keys, key), append(r.comms, comm), append(r.diffs, d), append(r.voted, voted)
}

func (r *round) find(k abstract.Point) int {
	for i := range r.keys {
		if r.keys[i].Equal(k) {
			return i
		}
	}
	return -1
}

// close ends the round and checks what is sent.
func (r *round) close() {
	gt, ht := r.PedersenBase.GT, r.PedersenBase.HT
	mark := vs.Sent()
	SymRoundEnd(r.Coordinator)
	vs.Assert("one message to a server and one to each client", vs.Sent() == mark+1+len(r.clients))
	byAddr := map[string]*proto.Event{}
	for i := mark; i < vs.Sent(); i++ {
		e, _ := util.DecodeEvent(vs.SentData(i))
		byAddr[vs.SentAddr(i)] = e
	}
	last := byAddr[r.ServerList[len(r.ServerList)-1].Addr.String()]
	vs.Assert("the last server", last != nil && last.EventType == proto.ROUND_END && last.Params["is_start"] != nil)
	keys := util.ProtobufDecodePointList(last.Params["keys"].([]byte))
	vals := util.ProtobufDecodePointList(last.Params["vals"].([]byte))
	vs.Assert("everybody", len(keys) == len(r.keys) && len(vals) == len(r.keys))
	vs.Assert("generators", util.DecodePoint(r.Suite, last.Params["GT"].([]byte)).Equal(gt) && util.DecodePoint(r.Suite, last.Params["HT"].([]byte)).Equal(ht))
	for _, a := range r.clients {
		e := byAddr[a]
		vs.Assert("every client", e != nil && e.EventType == proto.BCAST_PEDERSEN_RDIFF)
		ks := util.ProtobufDecodePointList(e.Params["keys"].([]byte))
		rs := util.ProtobufDecodeSecretList(e.Params["rDiffs"].([]byte))
		vs.Assert("everybody's randomness", len(ks) == len(keys) && len(rs) == len(keys))
		seen := make([]bool, len(r.keys))
		for i, k := range ks {
			j := r.find(k)
			vs.Assert("a participant", j >= 0)
			vs.Assert("once", !seen[j])
			seen[j] = true
			// the value listed for that key
			p := 0
			for p < len(keys) && !keys[p].Equal(k) {
				p++
			}
			vs.Assert("listed", p < len(keys))
			want := r.Suite.Point().Mul(gt, r.Suite.Secret().SetInt64(int64(r.diffs[j])))
			want.Add(want, r.Suite.Point().Mul(ht, rs[i]))
			want.Add(want, r.comms[j])
			vs.Assert("commitment changed by the score change", vals[p].Equal(want))
		}
	}
}

// reported hands the table of the next round back and checks it and the report.
func (r *round) reported() { r.back(vs.Choose("entries back", 3)) }

func (r *round) back(n int) {
	var ks, cs []abstract.Point
	for i := 0; i < n; i++ {
		s := strconv.Itoa(i)
		ks = append(ks, r.Suite.Point().Mul(nil, vs.Secret(r.Suite, "back"+s)))
		cs = append(cs, r.Suite.Point().Mul(nil, vs.AnySecret(r.Suite, "bcomm"+s)))
	}
	gt, ht := r.Suite.Point().Mul(nil, vs.AnySecret(r.Suite, "bGT")), r.Suite.Point().Mul(nil, vs.AnySecret(r.Suite, "bHT"))
	r.got(serverAddr(0).String(), proto.ROUND_END, pmap{"keys": util.ProtobufEncodePointList(ks), "vals": util.ProtobufEncodePointList(cs),
		"GT": util.EncodePoint(gt), "HT": util.EncodePoint(ht)})
	vs.Assert("ready", r.Status == READY_FOR_NEW_ROUND)
	vs.Assert("new generators", r.PedersenBase.GT.Equal(gt) && r.PedersenBase.HT.Equal(ht))
	vs.Assert("new table", len(r.BeginningCommMap) == n && len(r.BeginningKeyMap) == n)
	for i, k := range ks {
		vs.Assert("new entry", r.BeginningKeyMap[k.String()].Equal(k) && r.BeginningCommMap[k.String()].Equal(cs[i]))
	}
	vs.Assert("one report to each client", r.out() == len(r.clients))
	told := map[string]bool{}
	for i := 0; i < r.out(); i++ {
		to, e := r.event(i)
		told[to] = true
		vs.Assert("a report", e.EventType == proto.ROUND_END)
		keys := util.ProtobufDecodePointList(e.Params["keys"].([]byte))
		diffs := util.DecodeIntArray(e.Params["diffs"].([]byte))
		vs.Assert("as many changes as keys", len(keys) == len(diffs))
		seen := make([]bool, len(r.keys))
		for j, k := range keys {
			x := r.find(k)
			vs.Assert("about a participant", x >= 0)
			vs.Assert("reported once", !seen[x])
			seen[x] = true
			vs.Assert("what was counted", diffs[j] == r.diffs[x])
		}
		for x := range seen {
			vs.Assert("nothing is left out", seen[x] || r.diffs[x] == 0)
		}
	}
	for _, a := range r.clients {
		vs.Assert("every client is told", told[a])
	}
}

func Sym_C40_round() {
	vs.AnyMapOrder(true)
	r := newRound(vs.Choose("participants", 3), 1, 1)
	r.close()
	r.reported()
}

func SymT_C40_round3() {
	vs.AnyMapOrder(true)
	r := newRound(3, 1, 1)
	r.close()
	r.reported()
}

// as many participants as a default deployment has
func Sym_C40_long() {
	r := newRound(12, 4, 3)
	r.close()
	r.back(13)
}

func Sym_C40_three() {
	r := newRound(3, 3, 1)
	r.close()
	r.reported()
}

// with two clients, several servers, and participants that registered during the round
func Sym_C40_newcomers() {
	r := newRound(vs.Choose("participants", 3), 2, 1+vs.Choose("servers", 2))
	n := 1 + vs.Choose("newcomers", 2)
	for i := 0; i < n; i++ {
		s := "n" + strconv.Itoa(i)
		k := r.Suite.Point().Mul(r.G, vs.Secret(r.Suite, s))
		c := r.Suite.Point().Mul(nil, vs.AnySecret(r.Suite, "comm"+s))
		r.AddClientInBuffer(k, c)
		// somebody may already have voted on its bridge
		r.add(k, c, vs.Choose("voted"+s, 2) == 1, s)
	}
	r.close()
	r.reported()
}

// score changes of somebody who is not in the table are not reported, and do no harm
func Sym_C40_unknown() {
	r := newRound(vs.Choose("participants", 3), 1, 1)
	r.ReputationDiffMap[r.Suite.Point().Mul(nil, vs.Secret(r.Suite, "stranger")).String()] = vs.Int("stranger's", -10, 10)
	r.close()
	r.reported()
}

// the table that is announced is the one that came back
func Sym_C40_announced() {
	vs.AnyMapOrder(true)
	announced(vs.Choose("entries", 4))
}

func Sym_C40_announced_long() { announced(12) }

func announced(n int) {
	r := newRound(0, 0, 2)
	var ks, cs []abstract.Point
	for i := 0; i < n; i++ {
		s := strconv.Itoa(i)
		ks = append(ks, r.Suite.Point().Mul(nil, vs.Secret(r.Suite, "k"+s)))
		cs = append(cs, r.Suite.Point().Mul(nil, vs.AnySecret(r.Suite, "c"+s)))
		r.AddIntoRepMap(ks[i], cs[i])
	}
	mark := vs.Sent()
	SymAnnounce(r.Coordinator)
	vs.Assert("one message to the first server", vs.Sent() == mark+1 && vs.SentAddr(mark) == serverAddr(0).String())
	e, _ := util.DecodeEvent(vs.SentData(mark))
	vs.Assert("an announcement", e.EventType == proto.ANNOUNCEMENT && e.Params["g"] == nil)
	keys := util.ProtobufDecodePointList(e.Params["keys"].([]byte))
	vals := util.ProtobufDecodePointList(e.Params["vals"].([]byte))
	vs.Assert("every entry", len(keys) == n && len(vals) == n)
	seen := make([]bool, n)
	for i, k := range keys {
		for j := range ks {
			if ks[j].Equal(k) {
				vs.Assert("with its commitment", !seen[j] && vals[i].Equal(cs[j]))
				seen[j] = true
			}
		}
	}
	for j := range seen {
		vs.Assert("no entry is left out", seen[j])
	}
	vs.Assert("generators", util.DecodePoint(r.Suite, e.Params["GT"].([]byte)).Equal(r.PedersenBase.GT) && util.DecodePoint(r.Suite, e.Params["HT"].([]byte)).Equal(r.PedersenBase.HT))
}
