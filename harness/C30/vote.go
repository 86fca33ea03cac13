//sym:dir cmd/coordinator
//sym:use common/wevt.go
package coordinator

import (
	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"
	vs "zRep/verifsym"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/random"
)

// poll is a coordinator with a requester, a provider and a third participant.
type poll struct {
	*coord
	kr, kp, kt abstract.Secret
	nr, np, nt abstract.Point
}

func newPoll(servers int) *poll {
	p := &poll{coord: newCoord(servers)}
	p.kr, p.kp, p.kt = vs.Secret(p.Suite, "requester"), vs.Secret(p.Suite, "provider"), vs.Secret(p.Suite, "third")
	none := p.Suite.Point().Null()
	p.nr, p.np, p.nt = p.join(p.kr, none), p.join(p.kp, none), p.join(p.kt, none)
	return p
}

func (p *poll) assignment(addr string) *bridge.Assignment {
	return &bridge.Assignment{NymR: p.nr, Addr: addr, Nym: p.np}
}

// sigs are the signatures of all servers and the coordinator.
func (p *poll) sigs(a *bridge.Assignment) (l [][]byte) {
	msg := bridge.EncodeAssignment(a)
	for _, k := range p.priv {
		l = append(l, util.ElGamalSign(p.Suite, random.Stream, msg, k, nil))
	}
	return append(l, util.ElGamalSign(p.Suite, random.Stream, msg, p.PrivateKey, nil))
}

func (p *poll) ballot(nym abstract.Point, key abstract.Secret, a *bridge.Assignment, sigs [][]byte, f int) pmap {
	pm := pmap{"nym": util.EncodePoint(nym), "assignment": bridge.EncodeAssignment(a), "signatures": util.Encode2DByteArray(sigs), "feedback": f}
	pm["signature"] = util.ElGamalSign(p.Suite, random.Stream, bridge.MessageOfVote(pm), key, p.G)
	return pm
}

func (p *poll) vote(pm pmap) { p.got("192.0.2.1:1", proto.VOTE, pm) }

// counted: the provider's score changed by d, nobody else's did
// next: whatever was refused before, the requester's own vote on the assignment still counts.
func (p *poll) next(a *bridge.Assignment, old int) {
	f := 2*vs.Choose("afterwards", 2) - 1
	p.vote(p.ballot(p.nr, p.kr, a, p.sigs(a), f))
	p.counted("afterwards", old+f)
}

func (p *poll) counted(label string, d int) {
	vs.Assert(label+": provider", p.GetReputationDiff(p.np) == d)
	for k, v := range p.ReputationDiffMap {
		vs.Assert(label+": nobody else", k == p.np.String() || v == 0)
	}
}

// one proper vote with any feedback
func Sym_C30_one() {
	p := newPoll(vs.Choose("servers", 3))
	a := p.assignment("192.0.2.1:1")
	old := vs.Int("old", -1000, 1000)
	p.ReputationDiffMap[p.np.String()] = old
	f := vs.Int("feedback", -1<<62, 1<<62)
	p.vote(p.ballot(p.nr, p.kr, a, p.sigs(a), f))
	if f == 1 || f == -1 {
		p.counted("proper", old+f)
	} else {
		p.counted("not a vote", old)
		p.next(a, old)
	}
}

// sequences of votes on two assignments, with repetitions
func Sym_C30_sequence() {
	p := newPoll(1)
	as := []*bridge.Assignment{p.assignment("192.0.2.1:1"), p.assignment("192.0.2.2:2")}
	sg := [][][]byte{p.sigs(as[0]), p.sigs(as[1])}
	done := [2]bool{}
	total := 0
	n := 3
	if vs.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		s := string(rune('0' + i))
		w := vs.Choose("which"+s, 2)
		f := 2*vs.Choose("f"+s, 2) - 1
		p.vote(p.ballot(p.nr, p.kr, as[w], sg[w], f))
		if !done[w] {
			done[w] = true
			total += f
		}
		p.counted("sequence", total)
	}
}

// different providers and requesters
func Sym_C30_several() {
	p := newPoll(1)
	a := p.assignment("192.0.2.1:1")
	b := &bridge.Assignment{NymR: p.nt, Addr: "192.0.2.2:2", Nym: p.nr}
	fa, fb := 2*vs.Choose("fa", 2)-1, 2*vs.Choose("fb", 2)-1
	if vs.Choose("order", 2) == 0 {
		p.vote(p.ballot(p.nr, p.kr, a, p.sigs(a), fa))
		p.vote(p.ballot(p.nt, p.kt, b, p.sigs(b), fb))
	} else {
		p.vote(p.ballot(p.nt, p.kt, b, p.sigs(b), fb))
		p.vote(p.ballot(p.nr, p.kr, a, p.sigs(a), fa))
	}
	vs.Assert("first provider", p.GetReputationDiff(p.np) == fa)
	vs.Assert("second provider", p.GetReputationDiff(p.nr) == fb)
	vs.Assert("nobody else", p.GetReputationDiff(p.nt) == 0)
}

// voters other than the requester
func Sym_C30_voter() {
	p := newPoll(1)
	a := p.assignment("192.0.2.1:1")
	sg := p.sigs(a)
	var pm pmap
	switch vs.Choose("who", 5) {
	case 0: // another participant
		pm = p.ballot(p.nt, p.kt, a, sg, 1)
	case 1: // the provider
		pm = p.ballot(p.np, p.kp, a, sg, 1)
	case 2: // an outsider
		k := vs.AdvSecret(p.Suite, "outsider")
		n := p.Suite.Point().Mul(p.G, k)
		vs.Assume(!n.Equal(p.nr) && !n.Equal(p.np) && !n.Equal(p.nt))
		pm = p.ballot(n, k, a, sg, 1)
	case 3: // another participant in the requester's name
		pm = p.ballot(p.nr, p.kt, a, sg, 1)
	case 4: // anybody in the requester's name
		pm = p.ballot(p.nr, p.kt, a, sg, 1)
		pm["signature"] = p.forged("sig", sg[0], sg[1])
	}
	p.vote(pm)
	p.counted("other voter", 0)
	p.next(a, 0)
}

// an outsider's own assignment
func Sym_C30_outsider() {
	p := newPoll(1)
	k := vs.Secret(p.Suite, "outsider")
	n := p.Suite.Point().Mul(p.G, k)
	a := &bridge.Assignment{NymR: n, Addr: "192.0.2.1:1", Nym: p.np}
	p.vote(p.ballot(n, k, a, p.sigs(a), 1))
	p.counted("outsider", 0)
}

// one signature of the assignment is not genuine; the number of signatures is wrong
func Sym_C30_signatures() {
	n := 1 + vs.Choose("servers", 2)
	p := newPoll(n)
	a := p.assignment("192.0.2.1:1")
	sg := p.sigs(a)
	i := vs.Choose("which", n+1)
	switch vs.Choose("what", 7) {
	case 0: // made by somebody without the key
		sg[i] = p.forged("sig", sg[(i+1)%(n+1)])
	case 1: // made for another assignment
		sg[i] = p.sigs(p.assignment("192.0.2.1:2"))[i]
	case 2: // somebody else's at its place
		sg[i] = sg[(i+1)%(n+1)]
	case 3: // missing at the end or elsewhere
		sg = append(append([][]byte{}, sg[:i]...), sg[i+1:]...)
	case 4: // one too many
		sg = append(sg, sg[i])
	case 5: // changed order
		j := (i + 1) % (n + 1)
		sg[i], sg[j] = sg[j], sg[i]
	case 6: // the requester's own
		sg[i] = util.ElGamalSign(p.Suite, random.Stream, bridge.EncodeAssignment(a), p.kr, nil)
	}
	p.vote(p.ballot(p.nr, p.kr, a, sg, 1))
	p.counted("signatures", 0)
	p.next(a, 0)
}

// no signatures at all
func Sym_C30_unsigned() {
	n := vs.Choose("servers", 3)
	p := newPoll(n)
	a := p.assignment("192.0.2.1:1")
	p.vote(p.ballot(p.nr, p.kr, a, nil, 1))
	p.counted("unsigned", 0)
	p.next(a, 0)
}

// genuine signatures with another assignment
func Sym_C30_assignment() {
	p := newPoll(1)
	a := p.assignment("192.0.2.1:1")
	sg := p.sigs(a)
	b := *a
	switch vs.Choose("what", 3) {
	case 0: // another provider
		b.Nym = p.Suite.Point().Mul(p.G, vs.AdvSecret(p.Suite, "n"))
		vs.Assume(!b.Nym.Equal(a.Nym))
	case 1: // another requester
		b.NymR = p.nt
	case 2: // another bridge
		b.Addr = "192.0.2.1:9"
	}
	key, nym := p.kr, p.nr
	if vs.Choose("voter", 2) == 1 {
		key, nym = p.kt, p.nt
	}
	p.vote(p.ballot(nym, key, &b, sg, 1))
	vs.Assert("nothing counted", p.GetReputationDiff(b.Nym) == 0)
	p.counted("assignment", 0)
	p.next(a, 0)
}

// a genuine vote altered on the way
func Sym_C30_altered() {
	p := newPoll(1)
	a := p.assignment("192.0.2.1:1")
	b := p.assignment("192.0.2.2:2")
	pm := p.ballot(p.nr, p.kr, a, p.sigs(a), 1)
	switch vs.Choose("what", 4) {
	case 0:
		pm["feedback"] = -1
	case 1:
		pm["assignment"] = bridge.EncodeAssignment(b)
		pm["signatures"] = util.Encode2DByteArray(p.sigs(b))
	case 2:
		pm["nym"] = util.EncodePoint(p.nt)
	case 3:
		pm["signature"] = p.forged("sig", pm["signature"].([]byte))
		pm["feedback"] = -1
	}
	p.vote(pm)
	p.counted("altered", 0)
	p.next(a, 0)
}

// after the votes have been closed
func Sym_C30_late() {
	p := newPoll(1)
	a := p.assignment("192.0.2.1:1")
	sg := p.sigs(a)
	f := 2*vs.Choose("f", 2) - 1
	if vs.Choose("one before", 2) == 1 {
		p.vote(p.ballot(p.nr, p.kr, a, sg, f))
	} else {
		f = 0
	}
	p.Status = ROUND_END
	b := p.assignment("192.0.2.2:2")
	p.vote(p.ballot(p.nr, p.kr, b, p.sigs(b), 1))
	p.counted("late", f)
}
