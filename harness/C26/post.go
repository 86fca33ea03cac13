//sym:dir cmd/coordinator
//sym:use common/wevt.go
package coordinator

import (
	"strconv"

	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"
	vs "zRep/verifsym"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/random"
)

func (c *coord) postMsg(addr string, nym abstract.Point) pmap {
	return pmap{"bridge_addr": addr, "nym": util.EncodePoint(nym), "signature": nil}
}

func (c *coord) signPost(pm pmap, key abstract.Secret) pmap {
	pm["signature"] = util.ElGamalSign(c.Suite, random.Stream, bridge.MessageOfPostBridge(pm), key, c.G)
	return pm
}

// holds: exactly these bridges are recorded, and none is used
func (c *coord) holds(label string, addrs []string, nyms []abstract.Point) {
	vs.Assert(label+": number", len(c.Bridges) == len(addrs))
	for i, a := range addrs {
		b, ok := c.Bridges[a]
		vs.Assert(label+": bridge", ok && b.Nym.Equal(nyms[i]) && !b.Used)
	}
	vs.Assert(label+": no messages", c.out() == 0)
}

// honest posts of several participants
func Sym_C26_honest() {
	c := newCoord(1)
	var addrs []string
	var nyms []abstract.Point
	for i := 0; i < 3; i++ {
		n := string(rune('a' + i))
		key := vs.Secret(c.Suite, n)
		addr := vs.Str("addr"+n, 1+vs.Choose("len"+n, 2))
		for _, a := range addrs {
			vs.Assume(a != addr)
		}
		nym := c.Suite.Point().Mul(c.G, key)
		c.got("192.0.2.1:1", proto.POST_BRIDGE, c.signPost(c.postMsg(addr, nym), key))
		addrs, nyms = append(addrs, addr), append(nyms, nym)
		c.holds("honest", addrs, nyms)
	}
}

// a long list of posts by one or several participants
func Sym_C26_many() {
	c := newCoord(1)
	var addrs []string
	var nyms []abstract.Point
	keys := []abstract.Secret{vs.Secret(c.Suite, "k0"), vs.Secret(c.Suite, "k1")}
	several := vs.Choose("several", 2)
	for i := 0; i < 12; i++ {
		key := keys[i%2*several]
		addr := "192.0.2.1:" + strconv.Itoa(i)
		nym := c.Suite.Point().Mul(c.G, key)
		c.got("192.0.2.1:1", proto.POST_BRIDGE, c.signPost(c.postMsg(addr, nym), key))
		addrs, nyms = append(addrs, addr), append(nyms, nym)
		c.holds("many", addrs, nyms)
	}
}

// a signature made from nothing
func Sym_C26_forged() {
	c := newCoord(1)
	nym := c.Suite.Point().Mul(c.G, vs.Secret(c.Suite, "key"))
	pm := c.postMsg(vs.Str("addr", vs.Choose("len", 3)), nym)
	pm["signature"] = c.forged("sig")
	if vs.Choose("none", 2) == 1 {
		pm["signature"] = []byte{}
	}
	c.got("192.0.2.1:1", proto.POST_BRIDGE, pm)
	c.holds("forged", nil, nil)
}

// an honest post, then another address, pseudonym or signature
func Sym_C26_altered() {
	c := newCoord(1)
	key := vs.Secret(c.Suite, "key")
	nym := c.Suite.Point().Mul(c.G, key)
	addr := vs.Str("addr", 2)
	pm := c.signPost(c.postMsg(addr, nym), key)
	seen := pm["signature"].([]byte)
	if vs.Choose("recorded", 2) == 1 {
		c.got("192.0.2.1:1", proto.POST_BRIDGE, pm)
		c.holds("honest", []string{addr}, []abstract.Point{nym})
	}
	before := len(c.Bridges)
	addr2, nym2 := addr, nym
	what := vs.Choose("what", 4)
	switch what {
	case 0: // another address
		addr2 = vs.Str("addr2", 1+vs.Choose("len2", 3))
		vs.Assume(addr2 != addr)
	case 1: // another participant's pseudonym
		nym2 = c.Suite.Point().Mul(c.G, vs.Secret(c.Suite, "other"))
		addr2 = vs.Str("addr2", 2)
	case 2: // a pseudonym derived from the signer's
		nym2 = c.Suite.Point().Add(nym, c.Suite.Point().Mul(c.G, vs.AdvSecret(c.Suite, "shift")))
		vs.Assume(!nym2.Equal(nym))
	case 3: // bytes moved between the fields are not a signature over the same fields
		addr2 = vs.Str("addr2", 2)
		vs.Assume(addr2 != addr)
	}
	pm = c.postMsg(addr2, nym2)
	pm["signature"] = seen
	if what == 3 || vs.Choose("mix", 2) == 1 && what != 2 {
		pm["signature"] = c.forged("sig", seen)
	}
	c.got("192.0.2.7:7", proto.POST_BRIDGE, pm)
	vs.Assert("altered: number", len(c.Bridges) == before)
	for a, b := range c.Bridges {
		vs.Assert("altered: provider", a == addr && b.Nym.Equal(nym))
	}
}

// signed under another base or with another message type's layout
func Sym_C26_base() {
	c := newCoord(1)
	key := vs.Secret(c.Suite, "key")
	nym := c.Suite.Point().Mul(c.G, key)
	pm := c.postMsg("192.0.2.1:1", nym)
	switch vs.Choose("what", 3) {
	case 0: // under the public key's base
		pm["signature"] = util.ElGamalSign(c.Suite, random.Stream, bridge.MessageOfPostBridge(pm), key, nil)
	case 1: // only the address
		pm["signature"] = util.ElGamalSign(c.Suite, random.Stream, []byte("192.0.2.1:1"), key, c.G)
	case 2: // made with another key
		k2 := vs.AnySecret(c.Suite, "k2")
		vs.Assume(!k2.Equal(key))
		c.signPost(pm, k2)
	}
	c.got("192.0.2.1:1", proto.POST_BRIDGE, pm)
	c.holds("other", nil, nil)
}

// the same bridge again, by its provider or by somebody else: its provider stays
func Sym_C26_again() {
	c := newCoord(1)
	k1, k2 := vs.Secret(c.Suite, "k1"), vs.Secret(c.Suite, "k2")
	n1, n2 := c.Suite.Point().Mul(c.G, k1), c.Suite.Point().Mul(c.G, k2)
	addr := "192.0.2.1:1"
	c.got("192.0.2.1:1", proto.POST_BRIDGE, c.signPost(c.postMsg(addr, n1), k1))
	if vs.Choose("who", 2) == 0 {
		c.got("192.0.2.1:1", proto.POST_BRIDGE, c.signPost(c.postMsg(addr, n1), k1))
	} else {
		c.got("192.0.2.2:1", proto.POST_BRIDGE, c.signPost(c.postMsg(addr, n2), k2))
	}
	c.holds("again", []string{addr}, []abstract.Point{n1})
}
