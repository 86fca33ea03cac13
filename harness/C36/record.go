//sym:dir cmd/client
//sym:use common/wclient.go
package client

import (
	"bytes"
	"strconv"

	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"
	vs "zRep/verifsym"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/random"
)

type pmap = map[string]interface{}

// desk is a client that knows the coordinator's key.
type desk struct {
	*DissentClient
	key abstract.Secret
}

func newDesk() *desk {
	d := &desk{DissentClient: SymNew("127.0.0.1:30001", "127.0.0.1:12345")}
	d.key = vs.Secret(d.Suite, "coordinator")
	d.ControllerPublicKey = d.Suite.Point().Mul(nil, d.key)
	d.G = d.Suite.Point().Mul(nil, vs.Secret(d.Suite, "round"))
	d.OnetimePseudoNym = d.Suite.Point().Mul(d.G, d.PrivateKey)
	d.Status = MESSAGE
	return d
}

// when is any phase the client may be in.
func (d *desk) when() { d.Status = vs.Choose("status", 4) }

func (d *desk) got(typ int, pm pmap) {
	n := vs.Sent()
	util.SendEvent(d.CoordinatorAddr, d.LocalAddr, &proto.Event{EventType: typ, Params: pm})
	Handle(vs.SentData(n), d.DissentClient)
}

func (d *desk) assignment(addr string) *bridge.Assignment {
	return &bridge.Assignment{NymR: d.OnetimePseudoNym, Addr: addr, Nym: d.Suite.Point().Mul(d.G, vs.Secret(d.Suite, "provider"))}
}

func (d *desk) delivery(a *bridge.Assignment, sigs []byte, key abstract.Secret) pmap {
	pm := pmap{"assignment": bridge.EncodeAssignment(a), "signatures": sigs}
	pm["signature"] = util.ElGamalSign(d.Suite, random.Stream, bridge.MessageOfGotSignatures(pm), key, nil)
	return pm
}

// history is what the client has stored before: nothing or several deliveries.
func (d *desk) history() int {
	n := 5 * vs.Choose("earlier deliveries", 2)
	for i := 0; i < n; i++ {
		a := d.assignment("192.0.2.9:" + strconv.Itoa(i))
		sigs := sigList("earlier"+strconv.Itoa(i), 2)
		d.got(proto.GOT_SIGNS, d.delivery(a, sigs, d.key))
		vs.Assert("stored", len(d.Assignments) == i+1)
		d.recorded("earlier", i, a, sigs)
	}
	return n
}

func sigList(name string, n int) []byte {
	var l [][]byte
	for i := 0; i < n; i++ {
		l = append(l, vs.Bytes(name+string(rune('0'+i)), 2))
	}
	return util.Encode2DByteArray(l)
}

func (d *desk) recorded(label string, i int, a *bridge.Assignment, sigs []byte) {
	info := d.Assignments[i]
	vs.Assert(label+": requester", info.Assignment.NymR.Equal(a.NymR))
	vs.Assert(label+": provider", info.Assignment.Nym.Equal(a.Nym))
	vs.Assert(label+": bridge", info.Assignment.Addr == a.Addr)
	vs.Assert(label+": signatures", bytes.Equal(info.ByteSignatures, sigs))
}

// honest deliveries are all stored in order
func Sym_C36_honest() {
	d := newDesk()
	var as []*bridge.Assignment
	var ss [][]byte
	for i := 0; i < 3; i++ {
		n := string(rune('a' + i))
		as = append(as, d.assignment(vs.Str("addr"+n, vs.Choose("len"+n, 3))))
		ss = append(ss, sigList("sig"+n, 1+vs.Choose("sigs"+n, 2)))
		d.got(proto.GOT_SIGNS, d.delivery(as[i], ss[i], d.key))
		vs.Assert("stored", len(d.Assignments) == i+1)
		for j := 0; j <= i; j++ {
			d.recorded("honest", j, as[j], ss[j])
		}
	}
}

func (d *desk) sig(a, b abstract.Secret) []byte {
	var buf bytes.Buffer
	abstract.Write(&buf, &symSig{a, b}, d.Suite)
	return buf.Bytes()
}

type symSig struct{ C, R abstract.Secret }

// any signature made without the coordinator's key
func Sym_C36_forged() {
	d := newDesk()
	n := d.history()
	d.when()
	a := d.assignment(vs.Str("addr", 2))
	pm := d.delivery(a, sigList("sig", 2), vs.AdvSecret(d.Suite, "own"))
	vs.Assume(!d.Suite.Point().Mul(nil, vs.AdvSecret(d.Suite, "own")).Equal(d.ControllerPublicKey))
	switch vs.Choose("what", 3) {
	case 0:
	case 1:
		pm["signature"] = d.sig(vs.AdvSecret(d.Suite, "c"), vs.AdvSecret(d.Suite, "r"))
	case 2:
		pm["signature"] = []byte{}
	}
	d.got(proto.GOT_SIGNS, pm)
	vs.Assert("not stored", len(d.Assignments) == n)
}

// a genuine delivery altered on the way
func Sym_C36_altered() {
	d := newDesk()
	n := d.history()
	d.when()
	a := d.assignment("192.0.2.1:1")
	sigs := sigList("sig", 2)
	pm := d.delivery(a, sigs, d.key)
	seen := pm["signature"].([]byte)
	if vs.Choose("delivered", 2) == 1 {
		d.got(proto.GOT_SIGNS, pm)
	}
	before := len(d.Assignments)
	b := *a
	what := vs.Choose("what", 6)
	switch what {
	case 0:
		b.Addr = vs.Str("addr", 11)
		vs.Assume(b.Addr != a.Addr)
	case 1:
		b.Nym = d.Suite.Point().Mul(d.G, vs.AdvSecret(d.Suite, "n"))
		vs.Assume(!b.Nym.Equal(a.Nym))
	case 2:
		b.NymR = d.Suite.Point().Mul(d.G, vs.AdvSecret(d.Suite, "n"))
		vs.Assume(!b.NymR.Equal(a.NymR))
	case 3:
		s2 := sigList("sig2", 1+vs.Choose("n", 3))
		vs.Assume(!bytes.Equal(s2, sigs))
		sigs = s2
	case 4:
		sigs = nil
	case 5:
		var g symSig
		abstract.Read(bytes.NewBuffer(seen), &g, d.Suite)
		r := d.Suite.Secret().Add(vs.AdvSecret(d.Suite, "r0"), d.Suite.Secret().Mul(vs.AdvSecret(d.Suite, "r1"), g.R))
		seen = d.sig(vs.AdvSecret(d.Suite, "c"), r)
		b.Addr = "192.0.2.2:2"
	}
	pm["assignment"] = bridge.EncodeAssignment(&b)
	pm["signatures"] = sigs
	pm["signature"] = seen
	d.got(proto.GOT_SIGNS, pm)
	vs.Assert("altered delivery not stored", len(d.Assignments) == before)
	if before == n+1 {
		vs.Assert("the genuine one stays", d.Assignments[n].Assignment.Addr == a.Addr && d.Assignments[n].Assignment.Nym.Equal(a.Nym))
	}
}

// signatures of other parties do not count
func Sym_C36_others() {
	d := newDesk()
	n := d.history()
	d.when()
	a := d.assignment("192.0.2.1:1")
	key := d.PrivateKey
	pm := d.delivery(a, sigList("sig", 1), key)
	if vs.Choose("under", 2) == 1 {
		pm["signature"] = util.ElGamalSign(d.Suite, random.Stream, bridge.MessageOfGotSignatures(pm), d.key, d.G)
	}
	d.got(proto.GOT_SIGNS, pm)
	vs.Assert("not stored", len(d.Assignments) == n)
}

// signatures as long as real ones, of many servers
func Sym_C36_long() {
	d := newDesk()
	a := d.assignment("192.0.2.1:65535")
	var l [][]byte
	for i := 0; i < 11; i++ {
		l = append(l, vs.Bytes("sig"+strconv.Itoa(i), 128))
	}
	pm := d.delivery(a, util.Encode2DByteArray(l), d.key)
	if vs.Choose("honest", 2) == 1 {
		d.got(proto.GOT_SIGNS, pm)
		vs.Assert("stored", len(d.Assignments) == 1)
		d.recorded("long", 0, a, util.Encode2DByteArray(l))
		return
	}
	i := []int{0, 5, 10}[vs.Choose("which", 3)]
	j := []int{0, 50, 127}[vs.Choose("byte", 3)]
	old := l[i][j]
	l[i] = append([]byte{}, l[i]...)
	l[i][j] = vs.Bytes("other", 1)[0]
	vs.Assume(l[i][j] != old)
	pm["signatures"] = util.Encode2DByteArray(l)
	d.got(proto.GOT_SIGNS, pm)
	vs.Assert("altered delivery not stored", len(d.Assignments) == 0)
}
