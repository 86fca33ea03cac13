//sym:dir cmd
//sym:use common/world.go
package main

import (
	"math/big"
	"strconv"

	"zRep/cmd/client"
	"zRep/proto"
	"zRep/util"
	vs "zRep/verifsym"
)

// desk records which announcements each confirmation carried and which answers were given.
type desk struct {
	*World
	answers map[string]int
}

func newDesk(clients int) *desk {
	d := &desk{World: NewWorld(1), answers: map[string]int{}}
	d.Announce()
	for i := 0; i < clients; i++ {
		d.Join()
	}
	return d
}

// challenge sends bits that differ from other challenges and gives the answer, if any.
func (d *desk) challenge(name, from string) []*big.Int {
	b := make([]bool, 480)
	p := vs.Choose("pattern"+name, 2)
	for i := range b {
		b[i] = p == 1
	}
	b[vs.Choose("position"+name, 2)*479] = vs.Bool("bit" + name)
	n := vs.Sent()
	d.tell(from, coAddr, proto.GN_HONESTY_CHALLENGE, map[string]interface{}{"honesty_chal": util.ProtobufEncodeBoolList(b)})
	n++
	if vs.Sent() == n {
		return nil
	}
	vs.Assert("at most one answer", vs.Sent() == n+1)
	vs.Assert("to the one who asked", vs.SentAddr(n) == from)
	e, _ := util.DecodeEvent(vs.SentData(n))
	vs.Assert("an answer", e.EventType == proto.GN_HONESTY_ANSWER)
	return util.ProtobufDecodeBigIntList(e.Params["honesty_ans"].([]byte))
}

// a second challenge of the same client gets no answer
func Sym_C10_same() {
	d := newDesk(1)
	a := d.Cl[0].LocalAddr.String()
	vs.Assert("the first is answered", len(d.challenge("1", a)) == 480)
	vs.Assert("the second is not", d.challenge("2", a) == nil)
	vs.Assert("nor any other", d.challenge("3", a) == nil)
}

// strangers get no answer, and use up nothing
func Sym_C10_stranger() {
	d := newDesk(1)
	vs.Assert("stranger", d.challenge("1", "203.0.113.9:999") == nil)
	vs.Assert("the client", len(d.challenge("2", d.Cl[0].LocalAddr.String())) == 480)
	vs.Assert("stranger again", d.challenge("3", "203.0.113.9:999") == nil)
}

// leak: do two sets of answers give the exponent of a generator away? They do when they rest
// on a common hidden announcement.
func (d *desk) independent(p, q []*big.Int) {
	vs.Assert("lengths", len(p) == 480 && len(q) == 480)
	for i := range p {
		vs.Assert("announcements of one position differ", p[i].Cmp(q[i]) != 0)
		vs.Assert("neighbours differ", p[i].Cmp(q[(i+1)%480]) != 0 && p[i].Cmp(p[(i+1)%480]) != 0)
		vs.Assert("generators differ", p[i].Cmp(q[(i+80)%480]) != 0 && p[i].Cmp(p[(i+80)%480]) != 0)
	}
}

// no two answers to one client rest on the same announcement
func Sym_C10_distinct() {
	p := newDesk(1).Cl[0].AllGnHonestyProofPublic
	vs.Assert("length", len(p) == 480)
	for i := range p {
		for j := 0; j < i; j++ {
			vs.Assert("all announcements differ", p[i].Cmp(p[j]) != 0)
		}
	}
}

// different clients are answered from different announcements
func Sym_C10_clients() {
	d := newDesk(2)
	d.independent(d.Cl[0].AllGnHonestyProofPublic, d.Cl[1].AllGnHonestyProofPublic)
	for i, c := range d.Cl {
		n := strconv.Itoa(i)
		vs.Assert("answered", len(d.challenge(n, c.LocalAddr.String())) == 480)
	}
	vs.Assert("once", d.challenge("x", d.Cl[vs.Choose("again", 2)].LocalAddr.String()) == nil)
}

// a client that registers again gets new announcements
func Sym_C10_again() {
	d := newDesk(1)
	c := d.Cl[0]
	first := c.AllGnHonestyProofPublic
	before := vs.Choose("challenge before", 2) == 1
	if before {
		vs.Assert("answered", d.challenge("1", c.LocalAddr.String()) != nil)
	}
	client.SymRegister(c)
	d.Deliver()
	d.independent(first, c.AllGnHonestyProofPublic)
	vs.Assert("answered", d.challenge("2", c.LocalAddr.String()) != nil)
	vs.Assert("once", d.challenge("3", c.LocalAddr.String()) == nil)
}

// every secret exponent behind an announcement answers at most one challenge: two answers to
// the same position, in whatever combination, never differ by a generator's exponent
func Sym_C10_exponent() {
	d := newDesk(2)
	a := d.challenge("1", d.Cl[0].LocalAddr.String())
	b := d.challenge("2", d.Cl[1].LocalAddr.String())
	f := d.Co.FujiOkamBase
	for k, g := range []*big.Int{&f.G1.V, &f.G2.V, &f.G3.V, &f.G4.V, &f.G5.V, &f.G6.V} {
		i := k * 80
		e := new(big.Int).Sub(a[i], b[i])
		p := new(big.Int).Exp(&f.H1.V, e, f.N)
		vs.Assert("no exponent", p.Cmp(g) != 0 && new(big.Int).Exp(&f.H1.V, new(big.Int).Neg(e), f.N).Cmp(g) != 0)
	}
}
