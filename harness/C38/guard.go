//sym:dir cmd/client
//sym:use common/wclient.go
package client

import (
	"bytes"

	"zRep/cmd/bridge"
	"zRep/primitive/fujiokam"
	"zRep/proto"
	"zRep/util"
	vs "zRep/verifsym"

	"github.com/dedis/crypto/abstract"
)

type desk struct {
	*DissentClient
	key abstract.Secret
}

func params(s abstract.Suite) *fujiokam.FujiOkamBase {
	b := fujiokam.CreateBase()
	c := fujiokam.CreateMinimumBase(s, b.N)
	c.G1, c.G2, c.G3, c.G4, c.G5, c.G6, c.H1 = b.G1, b.G2, b.G3, b.G4, b.G5, b.G6, b.H1
	return c
}

// newDesk is a client in a round with the given reputation.
func newDesk(rep int) *desk {
	d := &desk{DissentClient: SymNew("127.0.0.1:30001", "127.0.0.1:12345")}
	d.G = d.Suite.Point().Mul(nil, vs.Secret(d.Suite, "round"))
	d.OnetimePseudoNym = d.Suite.Point().Mul(d.G, d.PrivateKey)
	d.FujiOkamBase = params(d.Suite)
	d.Status = MESSAGE
	d.Reputation = rep
	d.PCommr, d.R = d.PedersenBase.Commit(d.Suite.Secret().SetInt64(int64(rep)))
	return d
}

// sent is the n-th message sent since the mark.
func (d *desk) sent(mark, typ int) map[string]interface{} {
	vs.Assert("exactly one message", vs.Sent() == mark+1)
	vs.Assert("to the coordinator", vs.SentAddr(mark) == "127.0.0.1:12345")
	e, _ := util.DecodeEvent(vs.SentData(mark))
	vs.Assert("kind", e.EventType == typ)
	return e.Params
}

// more than the reputation: nothing leaves the client
func Sym_C38_refuses() {
	rep, n := vs.Int("reputation", -1<<40, 1<<40), vs.Int("n", -1<<40, 1<<40)
	vs.Assume(n > rep)
	d := newDesk(rep)
	mark := vs.Sent()
	SymRequest(d.DissentClient, n)
	vs.Assert("nothing sent", vs.Sent() == mark)
}

// up to the reputation: exactly one request for exactly that number
func Sym_C38_asks() {
	rep := vs.Choose("reputation", 5)
	n := vs.Choose("n", rep+1)
	d := newDesk(rep)
	mark := vs.Sent()
	SymRequest(d.DissentClient, n)
	p := d.sent(mark, proto.REQUEST_BRIDGES)
	vs.Assert("that number", p["ind"].(int) == n)
	d.own(p)
	vs.Assert("signed", util.ElGamalVerify(d.Suite, bridge.MessageOfRequestBridges(p), d.OnetimePseudoNym, p["signature"].([]byte), d.G) == nil)
	vs.Assert("reputation untouched", d.Reputation == rep)
}

func (d *desk) own(p map[string]interface{}) {
	nym := d.Suite.Point()
	nym.UnmarshalBinary(p["nym"].([]byte))
	vs.Assert("own pseudonym", nym.Equal(d.OnetimePseudoNym))
}

// votes on the chosen assignment, plus one for positive feedback and minus one otherwise
func Sym_C38_votes() {
	d := newDesk(1)
	k := 1 + vs.Choose("assignments", 3)
	for i := 0; i < k; i++ {
		s := string(rune('a' + i))
		a := &bridge.Assignment{NymR: d.OnetimePseudoNym, Addr: vs.Str("addr"+s, 2), Nym: d.Suite.Point().Mul(d.G, vs.Secret(d.Suite, "provider"+s))}
		d.Assignments = append(d.Assignments, AssignmentInfo{Assignment: a, ByteSignatures: vs.Bytes("sigs"+s, 3)})
	}
	for v := 0; v < 2; v++ {
		i := vs.Choose("which"+string(rune('0'+v)), k)
		f := vs.Int("feedback"+string(rune('0'+v)), -1<<62, 1<<62)
		mark := vs.Sent()
		SymVote(d.DissentClient, i, f)
		p := d.sent(mark, proto.VOTE)
		got := p["feedback"].(int)
		vs.Assert("plus one for positive", f <= 0 || got == 1)
		vs.Assert("minus one otherwise", f > 0 || got == -1)
		d.own(p)
		a := bridge.DecodeAssignment(p["assignment"].([]byte))
		want := d.Assignments[i]
		vs.Assert("chosen assignment", a.Addr == want.Assignment.Addr && a.Nym.Equal(want.Assignment.Nym) && a.NymR.Equal(d.OnetimePseudoNym))
		vs.Assert("its signatures", bytes.Equal(p["signatures"].([]byte), want.ByteSignatures))
		vs.Assert("signed", util.ElGamalVerify(d.Suite, bridge.MessageOfVote(p), d.OnetimePseudoNym, p["signature"].([]byte), d.G) == nil)
	}
}

// a number that names no assignment is no vote on another one
func Sym_C38_number() {
	d := newDesk(1)
	k := vs.Choose("assignments", 3)
	for i := 0; i < k; i++ {
		a := &bridge.Assignment{NymR: d.OnetimePseudoNym, Addr: string(rune('a' + i)), Nym: d.G}
		d.Assignments = append(d.Assignments, AssignmentInfo{Assignment: a, ByteSignatures: []byte{1}})
	}
	n := vs.Choose("number", k+6) - 3
	mark := vs.Sent()
	stopped := vs.Panics(func() { SymVote(d.DissentClient, n, 1) })
	if stopped || vs.Sent() == mark {
		vs.Assert("its own are voted on", n < 0 || n >= k)
		vs.Assert("nothing sent", vs.Sent() == mark)
		return
	}
	p := d.sent(mark, proto.VOTE)
	a := bridge.DecodeAssignment(p["assignment"].([]byte))
	vs.Assert("the chosen one", n >= 0 && n < k && a.Addr == d.Assignments[n].Assignment.Addr)
}
