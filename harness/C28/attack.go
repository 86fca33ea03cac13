//sym:dir cmd/bridge
package bridge

import (
	"crypto/sha256"
	"math/big"

	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen_fujiokam"
	"zRep/util"
	vs "zRep/verifsym"

	"github.com/dedis/crypto/nist"
)

func add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func num(a int64) *big.Int       { return big.NewInt(a) }

func dec(s string) *big.Int {
	v, _ := new(big.Int).SetString(s, 10)
	return v
}

// product is the product of powers of g2, ..., g6 and h.
func (o *office) product(e ...*big.Int) *fujiokam.Point {
	p := o.fb.Point()
	p.V.SetInt64(1)
	for i, x := range e {
		p.Mul(p, o.fb.Point().Exp(o.gens[i+1], x))
	}
	return p
}

// nonneg follows the protocol of the non-negativity argument for x with 4x+1 = a²+b²+d².
func (o *office) nonneg(x, a, b, d *big.Int, comm *fujiokam.Point, rc *big.Int) *fujiokam.ARGnonneg {
	rx, ra, rb, rd, r, rr, rrx := num(11), num(12), num(13), num(14), num(15), num(16), num(17)
	delta := sub(mul(num(4), rx), mul(num(2), add(mul(a, ra), add(mul(b, rb), mul(d, rd)))))
	C := o.product(x, a, b, d, delta, r)
	Cr := o.product(rx, ra, rb, rd, sub(num(0), add(mul(ra, ra), add(mul(rb, rb), mul(rd, rd)))), rr)
	crx := o.fb.CommitWithR(rx, rrx)
	h := sha256.New()
	h.Write(comm.V.Bytes())
	h.Write(C.V.Bytes())
	h.Write(Cr.V.Bytes())
	h.Write(crx.V.Bytes())
	e := new(big.Int).SetBytes(h.Sum(nil))
	at := func(v, r *big.Int) *big.Int { return add(mul(v, e), r) }
	return &fujiokam.ARGnonneg{Commitrx: &crx.V, C: &C.V, Cr: &Cr.V, R: at(rc, rrx),
		X_: at(x, rx), A_: at(a, ra), B_: at(b, rb), D_: at(d, rd), R_: at(r, rr)}
}

// ask is a request for n with the committed integer d in the place of the difference.
func (o *office) ask(n int, d, f *big.Int, fc *fujiokam.Point, arg *fujiokam.ARGnonneg) pmap {
	rind := vs.AdvSecret(o.suite, "rind")
	pi := o.pb.CommitWithR(o.suite.Secret().SetInt64(int64(n)), rind)
	pd := o.pb.Sub(o.entry, pi)
	rd := o.suite.Secret().Sub(o.r, rind)
	x := o.suite.Secret()
	x.(*nist.Int).V.Set(d)
	b, _ := rind.MarshalBinary()
	vs.RevealDraws(true)
	return pmap{"ind": n, "nym": o.nym, "PCommind": util.EncodePoint(pi), "PCommd": util.EncodePoint(pd), "rind": b,
		"FOCommd": fc.ToBinary(), "arg_nonneg": util.EncodeARGnonneg(arg),
		"arg_equal": util.EncodeARGequal(pedersen_fujiokam.ProveEqual(o.pb, o.fb, x, pd, rd, fc, f))}
}

// The difference is committed as an integer that is non-negative only because the order of the
// group was added to it.
func Sym_C28_wrapped() {
	q := dec("5099133861178675934299038070513690140208594154615901954959232152506056770707302268711370548280642524887896017588520836152823386566007063045571431221913131")
	m := 54939581861714629
	o := newOffice()
	rep := vs.Int("rep", -1<<62, 1<<62)
	o.enter(rep)
	d, f := sub(q, num(int64(m))), num(18)
	fc := o.fb.CommitWithR(d, f)
	arg := o.nonneg(d, dec("142816439686454527360034282009253521264160007769127031938456663484094769192122"),
		dec("1441398833062129654355878218180863945306"), dec("132323599628368464567"), fc, f)
	vs.Assert("the argument itself is fine", o.fb.VerifyNonneg(fc, arg))
	pm := o.ask(rep+m, d, f, fc, arg)
	vs.Assume(cOf(pm["arg_equal"].([]byte)).Cmp(num(16)) >= 0)
	vs.Assert("rejected", !o.verify(pm))
}

// The difference is negative; the non-negativity argument is one for another commitment, or is
// altered.
func Sym_C28_negative() {
	o := newOffice()
	rep := vs.Int("rep", -1<<62, 1<<62)
	o.enter(rep)
	m := vs.Int("m", 1, 1<<62)
	d, f := num(int64(-m)), num(18)
	fc := o.fb.CommitWithR(d, f)
	var arg *fujiokam.ARGnonneg
	switch vs.Choose("argument", 4) {
	case 0: // for 0
		arg = o.nonneg(num(0), num(0), num(1), num(0), o.fb.CommitWithR(num(0), f), f)
	case 1: // for 2 = (9-1)/4 in a commitment to 2, the challenge taken for the negative one
		arg = o.nonneg(num(2), num(3), num(0), num(0), fc, f)
	case 2: // no squares
		arg = o.nonneg(d, num(0), num(0), num(0), fc, f)
	case 3: // the squares of the absolute value
		arg = o.nonneg(d, num(1), num(2), num(0), fc, f)
	}
	vs.Assert("rejected", !o.verify(o.ask(rep+m, d, f, fc, arg)))
}
