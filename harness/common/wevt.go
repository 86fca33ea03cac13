//sym:dir cmd/coordinator
//sym:use common/wcoord.go
package coordinator

import (
	"bytes"
	"net"

	"zRep/proto"
	"zRep/util"
	vs "zRep/verifsym"

	"github.com/dedis/crypto/abstract"
)

type pmap = map[string]interface{}

// coord is a coordinator together with the messages it sent.
type coord struct {
	*Coordinator
	priv []abstract.Secret // servers' private keys
	mark int
}

const strangerAddr = "203.0.113.9:999"

func serverAddr(i int) *net.TCPAddr { return symAddr("10.0.0." + string(rune('1'+i)) + ":1000") }

// newCoord is a coordinator with servers in the posting phase.
func newCoord(servers int) *coord {
	c := &coord{Coordinator: SymNew("127.0.0.1:12345")}
	for i := 0; i < servers; i++ {
		s := vs.Secret(c.Suite, "server"+string(rune('1'+i)))
		c.priv = append(c.priv, s)
		c.AddServer(serverAddr(i), c.Suite.Point().Mul(nil, s))
	}
	c.G = c.Suite.Point().Mul(nil, vs.Secret(c.Suite, "round"))
	c.Status = MESSAGE
	return c
}

// join puts a participant with commitment comm into the table of the round.
func (c *coord) join(key abstract.Secret, comm abstract.Point) abstract.Point {
	nym := c.Suite.Point().Mul(c.G, key)
	c.AddIntoEndingMap(nym, comm)
	c.AllClientsPublicKeys = append(c.AllClientsPublicKeys, nym)
	return nym
}

// got hands a message to the coordinator.
func (c *coord) got(from string, typ int, pm pmap) {
	n := vs.Sent()
	util.SendEvent(symAddr(from), c.LocalAddr, &proto.Event{EventType: typ, Params: pm})
	data := vs.SentData(n)
	c.mark = n + 1
	Handle(data, c.Coordinator)
}

// out is how many messages the coordinator sent in reaction to the last one.
func (c *coord) out() int { return vs.Sent() - c.mark }

func (c *coord) event(i int) (string, *proto.Event) {
	e, _ := util.DecodeEvent(vs.SentData(c.mark + i))
	return vs.SentAddr(c.mark + i), e
}

// sig is a signature with the given components.
func (c *coord) sig(a, b abstract.Secret) []byte {
	var buf bytes.Buffer
	abstract.Write(&buf, &symSig{a, b}, c.Suite)
	return buf.Bytes()
}

type symSig struct{ C, R abstract.Secret }

// forged is any signature that can be made from the ones in seen.
func (c *coord) forged(name string, seen ...[]byte) []byte {
	a, b := vs.AdvSecret(c.Suite, name+".c"), vs.AdvSecret(c.Suite, name+".r")
	for i, s := range seen {
		var g symSig
		abstract.Read(bytes.NewBuffer(s), &g, c.Suite)
		n := name + string(rune('0'+i))
		a = c.Suite.Secret().Add(a, c.Suite.Secret().Mul(vs.AdvSecret(c.Suite, n+".c1"), g.R))
		b = c.Suite.Secret().Add(b, c.Suite.Secret().Mul(vs.AdvSecret(c.Suite, n+".r1"), g.R))
	}
	return c.sig(a, b)
}
