//sym:dir util/shuffle
//sym:use common/shuffle.go
package shuffle

import (
	"bytes"
	"strconv"

	vs "zRep/verifsym"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/proof"
)

// an honest proof presented for other lists or another key
func symOther(k int) {
	in := newInput(k, true)
	rand := in.cipher()
	xbar, ybar, prover, _, _ := Shuffle(in.suite, in.g, in.h, in.x, in.y, rand)
	prf := in.prove(prover, rand)
	l := in.gens()
	same := true
	change := func(name string, p abstract.Point) abstract.Point {
		q := in.comb(name, append([]abstract.Point{p}, l...))
		same = same && q.Equal(p)
		return q
	}
	other := *in
	other.x, other.y = nil, nil
	var xb, yb []abstract.Point
	for i := 0; i < k; i++ {
		n := strconv.Itoa(i)
		other.x = append(other.x, change("x"+n, in.x[i]))
		other.y = append(other.y, change("y"+n, in.y[i]))
		xb = append(xb, change("xb"+n, xbar[i]))
		yb = append(yb, change("yb"+n, ybar[i]))
	}
	other.h = change("h", in.h)
	vs.Assert("accepted for the proven shuffle only", other.verify(xb, yb, prf) == same)
}

func Sym_C20_other_two()   { symOther(2) }
func Sym_C20_other_three() { symOther(3) }
func SymT_C20_other_four() { symOther(4) }

// parts are the messages of a proof.
type parts struct {
	m0 ega0
	m1 ega1
	m3 ega3
	m5 ega5
	s0 ssa0
	s2 ssa2
	s4 ssa4
}

func (p *parts) list() []interface{} {
	return []interface{}{&p.m0, &p.m1, &p.m3, &p.m5, &p.s0, &p.s2, &p.s4}
}

func pts(k int) []abstract.Point   { return make([]abstract.Point, k) }
func secs(k int) []abstract.Secret { return make([]abstract.Secret, k) }

func (in *symInput) split(prf []byte) *parts {
	k := len(in.x)
	p := &parts{m0: ega0{X: pts(k), Y: pts(k), Xbar: pts(k), Ybar: pts(k)}, m1: ega1{A: pts(k), C: pts(k), U: pts(k), W: pts(k)},
		m3: ega3{D: pts(k)}, m5: ega5{Zsigma: secs(k)}, s0: ssa0{X: pts(k), Y: pts(k)}, s2: ssa2{Theta: pts(2 * k)}, s4: ssa4{Zalpha: secs(2*k - 1)}}
	buf := bytes.NewBuffer(prf)
	for _, m := range p.list() {
		vs.Assert("readable", abstract.Read(buf, m, in.suite) == nil)
	}
	vs.Assert("nothing else", buf.Len() == 0)
	return p
}

func (in *symInput) join(p *parts) []byte {
	var buf bytes.Buffer
	for _, m := range p.list() {
		vs.Assert("writable", abstract.Write(&buf, m, in.suite) == nil)
	}
	return buf.Bytes()
}

func (p *parts) points() (l []*abstract.Point) {
	add := func(ps []abstract.Point) {
		for i := range ps {
			l = append(l, &ps[i])
		}
	}
	l = append(l, &p.m1.Gamma, &p.m1.Lambda1, &p.m1.Lambda2)
	add(p.m1.A)
	add(p.m1.C)
	add(p.m1.U)
	add(p.m1.W)
	add(p.m3.D)
	add(p.s0.X)
	add(p.s0.Y)
	add(p.s2.Theta)
	return
}

func (p *parts) secrets() (l []*abstract.Secret) {
	l = append(l, &p.m5.Ztau)
	for i := range p.m5.Zsigma {
		l = append(l, &p.m5.Zsigma[i])
	}
	for i := range p.s4.Zalpha {
		l = append(l, &p.s4.Zalpha[i])
	}
	return
}

// one component of an honest proof replaced by anything else
func symComponent(k int) {
	in := newInput(k, true)
	rand := in.cipher()
	xbar, ybar, prover, _, _ := Shuffle(in.suite, in.g, in.h, in.x, in.y, rand)
	p := in.split(in.prove(prover, rand))
	vs.Assert("unchanged", in.verify(xbar, ybar, in.join(p)))
	ps, ss := p.points(), p.secrets()
	c := vs.Choose("component", len(ps)+len(ss))
	if c < len(ps) {
		q := in.comb("q", append([]abstract.Point{*ps[c]}, in.gens()...))
		vs.Assume(!q.Equal(*ps[c]))
		*ps[c] = q
	} else {
		s := ss[c-len(ps)]
		t := vs.AdvSecret(in.suite, "t")
		vs.Assume(!t.Equal(*s))
		*s = t
	}
	vs.Assert("altered component rejected", !in.verify(xbar, ybar, in.join(p)))
}

func Sym_C20_component_two()    { symComponent(2) }
func SymT_C20_component_three() { symComponent(3) }

// cheat is a prover that changes its own messages before they are hashed.
type cheat struct {
	proof.ProverContext
	f func(m interface{}) interface{}
}

func (c cheat) Put(m interface{}) error { return c.ProverContext.Put(c.f(m)) }

// a prover who follows the protocol but claims other outputs and adapts its announcements and responses
func symClaim(k int, more bool) {
	in := newInput(k, true)
	vs.RevealDraws(true)
	rand := in.cipher()
	xbar, ybar, prover, _, _ := Shuffle(in.suite, in.g, in.h, in.x, in.y, rand)
	l := in.gens()
	xb, yb := pts(k), pts(k)
	ok := true
	for i := 0; i < k; i++ {
		n := strconv.Itoa(i)
		dx, dy := in.comb("dx"+n, l), in.comb("dy"+n, l)
		xb[i], yb[i] = in.plus(xbar[i], dx), in.plus(ybar[i], dy)
		// a change by which the pair still encrypts the same
		ok = ok && in.suite.Point().Mul(dx, in.a).Equal(dy)
	}
	prf := in.prove(func(ctx proof.ProverContext) error {
		return prover(cheat{ctx, func(m interface{}) interface{} {
			switch v := m.(type) {
			case *ega0:
				v.Xbar, v.Ybar = xb, yb
			case *ega1:
				w := *v
				w.Lambda1, w.Lambda2 = in.plus(v.Lambda1, in.comb("l1", l)), in.plus(v.Lambda2, in.comb("l2", l))
				if more {
					w.W = pts(k)
					for i := range w.W {
						w.W[i] = in.plus(v.W[i], in.comb("w"+strconv.Itoa(i), []abstract.Point{v.Gamma}))
					}
				}
				return &w
			case *ega5:
				w := *v
				w.Ztau = vs.AdvSecret(in.suite, "tau")
				if more {
					w.Zsigma = secs(k)
					for i := range w.Zsigma {
						w.Zsigma[i] = vs.AdvSecret(in.suite, "sigma"+strconv.Itoa(i))
					}
				}
				return &w
			}
			return m
		}})
	}, rand)
	if in.verify(xb, yb, prf) {
		vs.Reach("accepted")
		vs.Assert("only a shuffle is accepted", ok)
	}
}

func Sym_C20_claim_two()   { symClaim(2, false) }
func Sym_C20_claim_three() { symClaim(3, false) }
func Sym_C20_claim_more()  { symClaim(2, true) }
