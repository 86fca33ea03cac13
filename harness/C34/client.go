//sym:dir cmd/client
//sym:use common/wclient.go
package client

import (
	"strconv"

	"zRep/proto"
	"zRep/util"
	vs "zRep/verifsym"

	"github.com/dedis/crypto/abstract"
)

type pmap = map[string]interface{}

func (c *DissentClient) given(typ int, pm pmap) {
	n := vs.Sent()
	util.SendEvent(c.CoordinatorAddr, c.LocalAddr, &proto.Event{EventType: typ, Params: pm})
	Handle(vs.SentData(n), c)
}

// lists of any length with the client's own entry at any place, or without it
func Sym_C34_client() {
	c := SymNew("127.0.0.1:30001", "127.0.0.1:12345")
	c.G = c.Suite.Point().Mul(nil, vs.Secret(c.Suite, "g"))
	c.OnetimePseudoNym = c.Suite.Point().Mul(c.G, c.PrivateKey)
	c.R = vs.AnySecret(c.Suite, "R")
	c.Reputation = vs.Int("reputation", -1000, 1000)
	c.Status = 1 + vs.Choose("status", 3)
	n := []int{0, 1, 2, 3, 5, 12}[vs.Choose("entries", 6)]
	at := vs.Choose("at", n+1)
	var keys []abstract.Point
	var rs []abstract.Secret
	var ds []int
	for i := 0; i < n; i++ {
		s := strconv.Itoa(i)
		k := c.OnetimePseudoNym
		if i != at {
			k = c.Suite.Point().Mul(nil, vs.Secret(c.Suite, "key"+s))
		}
		keys = append(keys, k)
		rs = append(rs, vs.AnySecret(c.Suite, "r"+s))
		ds = append(ds, vs.Int("d"+s, -1000, 1000))
	}
	r, d := c.Suite.Secret().Zero(), 0
	if at < n {
		r, d = rs[at], ds[at]
	}
	wantR, want := c.Suite.Secret().Add(c.R, r), c.Reputation+d
	c.given(proto.BCAST_PEDERSEN_RDIFF, pmap{"keys": util.ProtobufEncodePointList(keys), "rDiffs": util.ProtobufEncodeSecretList(rs)})
	vs.Assert("randomness follows", c.R.Equal(wantR))
	c.given(proto.ROUND_END, pmap{"keys": util.ProtobufEncodePointList(keys), "diffs": util.EncodeIntArray(ds)})
	vs.Assert("reputation follows", c.Reputation == want)
	vs.Assert("randomness unchanged", c.R.Equal(wantR))

	// the next announcement
	g := c.Suite.Point().Mul(nil, vs.Secret(c.Suite, "g2"))
	nym := c.Suite.Point().Mul(g, c.PrivateKey)
	gt, ht := c.Suite.Point().Mul(nil, vs.AnySecret(c.Suite, "gt")), c.Suite.Point().Mul(nil, vs.AnySecret(c.Suite, "ht"))
	if at == n {
		keys, n = append(keys, nil), n+1
	}
	keys[at] = nym
	var vals []abstract.Point
	for i := 0; i < n; i++ {
		vals = append(vals, c.Suite.Point().Mul(nil, vs.AnySecret(c.Suite, "v"+strconv.Itoa(i))))
	}
	c.given(proto.ANNOUNCEMENT_FINALIZE, pmap{"g": util.EncodePoint(g), "keys": util.ProtobufEncodePointList(keys), "vals": util.ProtobufEncodePointList(vals),
		"GT": util.EncodePoint(gt), "HT": util.EncodePoint(ht)})
	vs.Assert("takes part", c.Status == MESSAGE)
	vs.Assert("pseudonym", c.OnetimePseudoNym.Equal(nym) && c.G.Equal(g))
	vs.Assert("own commitment", c.PCommr.Equal(vals[at]))
	vs.Assert("generators", c.PedersenBase.GT.Equal(gt) && c.PedersenBase.HT.Equal(ht))
	vs.Assert("reputation and randomness stay", c.Reputation == want && c.R.Equal(wantR))
}
