//sym:dir util/shuffle
//sym:use common/shuffle.go
package shuffle

import (
	"bytes"
	"strconv"

	vs "zRep/verifsym"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/proof"
)

type duo = [2]abstract.Point

type symBiffle struct {
	*symInput
	X, Y, Xbar, Ybar duo
}

func newBiffle(std bool) (*symBiffle, proof.Prover, abstract.Cipher) {
	b := &symBiffle{symInput: newInput(2, std)}
	copy(b.X[:], b.x)
	copy(b.Y[:], b.y)
	rand := b.cipher()
	var p proof.Prover
	b.Xbar, b.Ybar, p = Biffle(b.suite, b.g, b.h, b.X, b.Y, rand)
	return b, p, rand
}

func (b *symBiffle) prf(p proof.Prover, rand abstract.Cipher) []byte {
	prf, err := proof.HashProve(b.suite, "Biffle", rand, p)
	vs.Assert("proof made", err == nil)
	return prf
}

// points is how many group elements precede the six numbers of a proof.
func (b *symBiffle) points(prf []byte) int {
	return (len(prf) - 6*b.suite.SecretLen()) / b.suite.PointLen()
}

func (b *symBiffle) accepted(prf []byte) bool {
	return proof.HashVerify(b.suite, "Biffle", BiffleVerifier(b.suite, b.g, b.h, b.X, b.Y, b.Xbar, b.Ybar), prf) == nil
}

// from tells whether output i is input j, blinded consistently
func (b *symBiffle) from(i, j int) bool {
	dx := b.suite.Point().Sub(b.Xbar[i], b.X[j])
	dy := b.suite.Point().Sub(b.Ybar[i], b.Y[j])
	return b.suite.Point().Mul(dx, b.a).Equal(dy)
}

func (b *symBiffle) ok() bool {
	return b.from(0, 0) && b.from(1, 1) || b.from(0, 1) && b.from(1, 0)
}

func Sym_C21_correct() {
	vs.Cover("kept")
	vs.Cover("swapped")
	b, p, rand := newBiffle(vs.Choose("std", 2) == 1)
	vs.Assert("a re-encrypted permutation", b.ok())
	if b.from(0, 0) {
		vs.Reach("kept")
	} else {
		vs.Reach("swapped")
	}
	for i := range b.Xbar {
		for j := range b.X {
			vs.Assert("blinded", !b.Xbar[i].Equal(b.X[j]))
		}
	}
	dx := b.suite.Point().Sub(b.suite.Point().Add(b.Xbar[0], b.Xbar[1]), b.suite.Point().Add(b.X[0], b.X[1]))
	for i := range b.Xbar {
		for j := range b.X {
			e := b.suite.Point().Sub(b.Xbar[i], b.X[j])
			vs.Assert("blinded independently", !dx.Equal(b.suite.Point().Add(e, e)))
		}
	}
	for i := range b.x {
		vs.Assert("input untouched", b.X[i].Equal(b.x[i]) && b.Y[i].Equal(b.y[i]))
	}
	vs.Assert("proof accepted", b.accepted(b.prf(p, rand)))
}

// the honest proof presented for other elements, any number of them at once
func Sym_C21_other() {
	b, p, rand := newBiffle(true)
	prf := b.prf(p, rand)
	l := append(b.gens(), b.Xbar[0], b.Ybar[0], b.Xbar[1], b.Ybar[1])
	same := true
	change := func(name string, p abstract.Point) abstract.Point {
		q := b.comb(name, l)
		same = same && q.Equal(p)
		return q
	}
	o := *b
	in := *b.symInput
	o.symInput = &in
	for i := range b.X {
		n := strconv.Itoa(i)
		o.X[i] = change("x"+n, b.X[i])
		o.Y[i] = change("y"+n, b.Y[i])
		o.Xbar[i] = change("xb"+n, b.Xbar[i])
		o.Ybar[i] = change("yb"+n, b.Ybar[i])
	}
	in.h = change("h", b.h)
	vs.Assert("accepted for the proven shuffle only", o.accepted(prf) == same)
}

// one component of the honest proof replaced by anything else
func Sym_C21_component() {
	b, p, rand := newBiffle(true)
	prf := b.prf(p, rand)
	buf := bytes.NewBuffer(prf)
	ps, ss := make([]abstract.Point, b.points(prf)), make([]abstract.Secret, 6)
	vs.Assert("readable", abstract.Read(buf, &ps, b.suite) == nil && abstract.Read(buf, &ss, b.suite) == nil && buf.Len() == 0)
	l := b.gens()
	c := vs.Choose("component", len(ps)+len(ss))
	if c < len(ps) {
		q := b.comb("q", append([]abstract.Point{ps[c]}, l...))
		vs.Assume(!q.Equal(ps[c]))
		ps[c] = q
	} else {
		t := vs.AdvSecret(b.suite, "t")
		vs.Assume(!t.Equal(ss[c-len(ps)]))
		ss[c-len(ps)] = t
	}
	var out bytes.Buffer
	vs.Assert("writable", abstract.Write(&out, &ps, b.suite) == nil && abstract.Write(&out, &ss, b.suite) == nil)
	vs.Assert("altered component rejected", !b.accepted(out.Bytes()))
}

// a prover of any two lists who can answer two challenges for the same announcements
func Sym_C21_forge() {
	b, p, rand := newBiffle(true)
	n := b.points(b.prf(p, rand))
	l := b.gens()
	for i := range b.Xbar {
		n := strconv.Itoa(i)
		b.Xbar[i] = b.comb("xb"+n, l)
		b.Ybar[i] = b.comb("yb"+n, l)
	}
	st := []abstract.Point{b.suite.Point().Base(), b.h, b.X[0], b.X[1], b.Y[0], b.Y[1], b.Xbar[0], b.Xbar[1], b.Ybar[0], b.Ybar[1]}
	for i := 0; len(st) < n; i++ {
		st = append(st, b.comb("t"+strconv.Itoa(i), l))
	}
	var split []abstract.Secret
	made := func(n string) []byte {
		var out bytes.Buffer
		ss := make([]abstract.Secret, 6)
		for i := range ss {
			ss[i] = vs.AdvSecret(b.suite, "s"+strconv.Itoa(i)+n)
		}
		split = append(split, ss[0])
		vs.Assert("writable", abstract.Write(&out, &st, b.suite) == nil && abstract.Write(&out, &ss, b.suite) == nil)
		return out.Bytes()
	}
	if !b.accepted(made("")) {
		return
	}
	vs.Rewind()
	if !b.accepted(made("'")) {
		return
	}
	vs.Forked()
	vs.Reach("accepted twice")
	if !split[0].Equal(split[1]) {
		vs.Assert("kept", b.from(0, 0) && b.from(1, 1))
	} else {
		vs.Assert("swapped", b.from(0, 1) && b.from(1, 0))
	}
}

// liar is a prover that announces other outputs than those it made and adapts its announcements.
type liar struct {
	proof.ProverContext
	b      *symBiffle
	change map[int]abstract.Point
	old    []abstract.Point
	n      int
	asked  bool
}

func (c *liar) PubRand(d ...interface{}) error {
	c.asked = true
	return c.ProverContext.PubRand(d...)
}

func (c *liar) Put(m interface{}) error {
	if c.asked {
		return c.ProverContext.Put(m)
	}
	var buf bytes.Buffer
	if err := abstract.Write(&buf, m, c.b.suite); err != nil {
		return err
	}
	ps := make([]abstract.Point, buf.Len()/c.b.suite.PointLen())
	if err := abstract.Read(&buf, &ps, c.b.suite); err != nil {
		return err
	}
	for i := range ps {
		if c.n >= 10 {
			ps[i] = c.b.suite.Point().Add(ps[i], c.b.comb("t"+strconv.Itoa(c.n), c.b.gens()[:2]))
		}
		c.n++
		for j, o := range c.old {
			if ps[i].Equal(o) {
				ps[i] = c.change[j]
				break
			}
		}
	}
	return c.ProverContext.Put(ps)
}

// a prover who follows the protocol but claims other outputs
func Sym_C21_claim() {
	b, p, rand := newBiffle(true)
	vs.RevealDraws(true)
	n := &liar{b: b, change: map[int]abstract.Point{}, old: []abstract.Point{b.Xbar[0], b.Ybar[0], b.Xbar[1], b.Ybar[1]}}
	for i, o := range n.old {
		n.change[i] = b.suite.Point().Add(o, b.comb("d"+strconv.Itoa(i), b.gens()[:2]))
	}
	prf := b.prf(func(ctx proof.ProverContext) error {
		n.ProverContext = ctx
		return p(n)
	}, rand)
	b.Xbar, b.Ybar = duo{n.change[0], n.change[2]}, duo{n.change[1], n.change[3]}
	if b.accepted(prf) {
		vs.Assert("only a shuffle is accepted", b.ok())
	}
}
