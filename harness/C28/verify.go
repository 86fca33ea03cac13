//sym:dir cmd/bridge
package bridge

import (
	"math/big"

	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen"
	"zRep/primitive/pedersen_fujiokam"
	"zRep/util"
	vs "zRep/verifsym"

	"github.com/dedis/crypto/abstract"
)

type pmap = map[string]interface{}

func advInt(name string) *big.Int { return vs.AdvBig(name, nil, nil) }

// office holds the public parameters, whose generators have no known relations, and the
// table entry of the requester, who knows its opening.
type office struct {
	suite abstract.Suite
	pb    *pedersen.PedersenBase
	fb    *fujiokam.FujiOkamBase
	gens  []*fujiokam.Point
	nym   []byte
	rep   int
	entry abstract.Point
	r     abstract.Secret
}

func newOffice() *office {
	o := &office{pb: pedersen.CreateBase(), fb: fujiokam.CreateBase()}
	o.suite = o.pb.Suite
	o.pb.GT = o.suite.Point().Mul(nil, vs.Secret(o.suite, "gt"))
	o.pb.HT = o.suite.Point().Mul(nil, vs.Secret(o.suite, "ht"))
	for i, g := range []**fujiokam.Point{&o.fb.G1, &o.fb.G2, &o.fb.G3, &o.fb.G4, &o.fb.G5, &o.fb.G6, &o.fb.H1} {
		*g = o.fb.Point().SetBigInt(vs.Elem("g"+string(rune('1'+i)), o.fb.N))
		o.gens = append(o.gens, *g)
	}
	o.nym = util.EncodePoint(o.suite.Point().Mul(nil, vs.Secret(o.suite, "nym")))
	return o
}

// enter puts a commitment to the reputation into the table.
func (o *office) enter(rep int) {
	o.rep, o.r = rep, vs.AdvSecret(o.suite, "R")
	o.entry = o.pb.CommitWithR(o.suite.Secret().SetInt64(int64(rep)), o.r)
}

// pedersen is any commitment the requester can form.
func (o *office) pedersen(n string) []byte {
	return util.EncodePoint(o.pb.CommitWithR(vs.AdvSecret(o.suite, n+".v"), vs.AdvSecret(o.suite, n+".r")))
}

// integer is any integer commitment the requester can form, and its exponents.
func (o *office) integer(n string) (*fujiokam.Point, []*big.Int) {
	p := o.fb.Point()
	p.V.SetInt64(1)
	var ex []*big.Int
	for i, g := range o.gens {
		ex = append(ex, advInt(n+string(rune('1'+i))))
		p.Mul(p, o.fb.Point().Exp(g, ex[i]))
	}
	return p, ex
}

func (o *office) verify(pm pmap) bool { return VerifyInd(pm, o.entry, o.suite, o.pb, o.fb) }

func equality(n string) []byte {
	return util.EncodeARGequal(&pedersen_fujiokam.ARGequal{C: advInt("C" + n), S1: advInt("S1" + n), S2: advInt("S2" + n), S3: advInt("S3" + n)})
}

// with returns the request with another equality argument.
func with(pm pmap, arg []byte) pmap {
	q := pmap{}
	for k, v := range pm {
		q[k] = v
	}
	q["arg_equal"] = arg
	return q
}

func cOf(b []byte) *big.Int { return util.DecodeARGequal(b).C }

// cheat: the requester answers two challenges that are not almost the same. Then what it asked
// for is at most its reputation.
func (o *office) cheat(pm pmap, ind int) {
	a, b := equality(""), equality("'")
	if !o.verify(with(pm, a)) {
		return
	}
	vs.Rewind()
	if !o.verify(with(pm, b)) {
		return
	}
	vs.Forked()
	d := new(big.Int).Sub(cOf(a), cOf(b))
	if d.Sign() < 0 {
		d.Neg(d)
	}
	vs.Assume(d.Cmp(big.NewInt(16)) >= 0)
	vs.Reach("accepted twice")
	vs.Assert("at most the reputation", ind <= o.rep)
}

func Sym_C28_cheat() {
	o := newOffice()
	o.enter(vs.Int("rep", -1<<62, 1<<62))
	ind := vs.Int("ind", -1<<63, 1<<63-1)
	fc, ex := o.integer("f")
	vs.Stub("(*zRep/primitive/fujiokam.FujiOkamBase).VerifyNonneg", func(_ *fujiokam.FujiOkamBase, c *fujiokam.Point, _ *fujiokam.ARGnonneg) bool {
		// what C06 decides about accepted arguments
		return c.Equal(fc) && ex[0].Sign() >= 0 && ex[1].Sign() == 0 && ex[2].Sign() == 0 && ex[3].Sign() == 0 && ex[4].Sign() == 0 && ex[5].Sign() == 0
	})
	rind, _ := vs.AdvSecret(o.suite, "rind").MarshalBinary()
	o.cheat(pmap{"ind": ind, "nym": o.nym, "PCommind": o.pedersen("PCommind"), "PCommd": o.pedersen("PCommd"), "rind": rind,
		"FOCommd": fc.ToBinary(), "arg_nonneg": util.EncodeARGnonneg(&fujiokam.ARGnonneg{Commitrx: big.NewInt(1)})}, ind)
}

// the same with genuine non-negativity arguments
func Sym_C28_cheat_genuine() {
	o := newOffice()
	o.enter(vs.Int("rep", -1<<62, 1<<62))
	ind := vs.Int("ind", -1<<63, 1<<63-1)
	d := big.NewInt(int64([]int{0, 1, 6}[vs.Choose("d", 3)]))
	vs.RevealDraws(true)
	fc, f := o.fb.Commit(d)
	rind, _ := vs.AdvSecret(o.suite, "rind").MarshalBinary()
	o.cheat(pmap{"ind": ind, "nym": o.nym, "PCommind": o.pedersen("PCommind"), "PCommd": o.pedersen("PCommd"), "rind": rind,
		"FOCommd": fc.ToBinary(), "arg_nonneg": util.EncodeARGnonneg(o.fb.ProveNonneg(d, fc, f))}, ind)
}

// the entry of somebody else, whose opening the requester does not know: nothing is accepted
// for it but what the opening of the number itself gives away
func Sym_C28_unknown_entry() {
	o := newOffice()
	o.entry = vs.Point(o.suite, "entry")
	ind := vs.Int("ind", -1<<63, 1<<63-1)
	d := big.NewInt(int64([]int{0, 1, 6}[vs.Choose("d", 3)]))
	vs.RevealDraws(true)
	fc, f := o.fb.Commit(d)
	rind, _ := vs.AdvSecret(o.suite, "rind").MarshalBinary()
	known := o.suite.Point().Mul(o.entry, vs.AdvSecret(o.suite, "times"))
	known.Add(known, o.pb.CommitWithR(vs.AdvSecret(o.suite, "v"), vs.AdvSecret(o.suite, "r")))
	pm := pmap{"ind": ind, "nym": o.nym, "PCommind": o.pedersen("PCommind"), "PCommd": util.EncodePoint(known), "rind": rind,
		"FOCommd": fc.ToBinary(), "arg_nonneg": util.EncodeARGnonneg(o.fb.ProveNonneg(d, fc, f))}
	a, b := equality(""), equality("'")
	if !o.verify(with(pm, a)) {
		return
	}
	vs.Rewind()
	if !o.verify(with(pm, b)) {
		return
	}
	vs.Forked()
	vs.Assert("not without the opening", false)
}

// no entry
func Sym_C28_no_entry() {
	o := newOffice()
	o.enter(5)
	pm := o.honest(vs.Choose("n", 6), 5)
	vs.Assert("accepted with the entry", o.verify(pm))
	o.entry = nil
	vs.Assert("rejected without", !o.verify(pm))
}

// honest is the request of a client that believes its reputation is rep.
func (o *office) honest(n, rep int) pmap {
	d := big.NewInt(int64(rep - n))
	pi, rind := o.pb.Commit(o.suite.Secret().SetInt64(int64(n)))
	pd := o.pb.Sub(o.entry, pi)
	rd := o.suite.Secret().Sub(o.r, rind)
	fc, f := o.fb.Commit(d)
	b, _ := rind.MarshalBinary()
	return pmap{"ind": n, "nym": o.nym, "PCommind": util.EncodePoint(pi), "PCommd": util.EncodePoint(pd), "rind": b,
		"FOCommd": fc.ToBinary(), "arg_nonneg": util.EncodeARGnonneg(o.fb.ProveNonneg(d, fc, f)),
		"arg_equal": util.EncodeARGequal(pedersen_fujiokam.ProveEqual(o.pb, o.fb, o.suite.Secret().SetInt64(int64(rep-n)), pd, rd, fc, f))}
}

// an accepted request with another number, or against another entry
func Sym_C28_transfer() {
	o := newOffice()
	o.enter(5)
	n := vs.Choose("n", 6)
	pm := o.honest(n, 5)
	switch vs.Choose("what", 3) {
	case 0:
		pm["ind"] = vs.Int("other", -1<<63, 1<<63-1)
		vs.Assert("only for its number", o.verify(pm) == (pm["ind"].(int) == n))
	case 1:
		rep := vs.Int("rep", -1<<62, 1<<62)
		o.entry = o.pb.CommitWithR(o.suite.Secret().SetInt64(int64(rep)), o.r)
		vs.Assert("only for its reputation", o.verify(pm) == (rep == 5))
	case 2:
		s := vs.AnySecret(o.suite, "R'")
		o.entry = o.pb.CommitWithR(o.suite.Secret().SetInt64(5), s)
		vs.Assert("only for its commitment", o.verify(pm) == s.Equal(o.r))
	}
}

// a client that lies to itself about its reputation
func Sym_C28_lie() {
	o := newOffice()
	rep := vs.Int("rep", -1<<62, 1<<62)
	o.enter(rep)
	n := vs.Choose("n", 12)
	claim := n + []int{0, 1, 6}[vs.Choose("more", 3)]
	vs.Assert("accepted for the true reputation only", o.verify(o.honest(n, claim)) == (claim == rep))
}
