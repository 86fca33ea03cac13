//sym:dir primitive/pedersen_fujiokam
package pedersen_fujiokam

import (
	"math/big"

	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen"
	vs "zRep/verifsym"

	"github.com/dedis/crypto/abstract"
)

func advInt(name string) *big.Int { return vs.AdvBig(name, nil, nil) }

// generators without known relations
func symElems() (*pedersen.PedersenBase, *fujiokam.FujiOkamBase) {
	pb := pedersen.CreateBase()
	pb.GT = pb.Suite.Point().Mul(nil, vs.Secret(pb.Suite, "gt"))
	pb.HT = pb.Suite.Point().Mul(nil, vs.Secret(pb.Suite, "ht"))
	fb := fujiokam.CreateBase()
	for i, g := range []**fujiokam.Point{&fb.G1, &fb.G2, &fb.G3, &fb.G4, &fb.G5, &fb.G6, &fb.H1} {
		*g = fb.Point().SetBigInt(vs.Elem("g"+string(rune('1'+i)), fb.N))
	}
	return pb, fb
}

func advArg(n string) *ARGequal {
	return &ARGequal{C: advInt("C" + n), S1: advInt("S1" + n), S2: advInt("S2" + n), S3: advInt("S3" + n)}
}

// two accepted arguments from one announcement (rewinding): the values agree
func Sym_C08_forge() {
	pb, fb := symElems()
	p1, p2 := vs.AdvSecret(pb.Suite, "p1"), vs.AdvSecret(pb.Suite, "p2")
	pc := pb.CommitWithR(p1, p2)
	fc := fb.Point()
	fc.V.SetInt64(1)
	ex := make([]*big.Int, 7)
	for i, g := range []*fujiokam.Point{fb.G1, fb.G2, fb.G3, fb.G4, fb.G5, fb.G6, fb.H1} {
		ex[i] = advInt("f" + string(rune('1'+i)))
		fc.Mul(fc, fb.Point().Exp(g, ex[i]))
	}
	if !VerifyEqual(pb, fb, pc, fc, advArg("")) {
		return
	}
	vs.Rewind()
	if !VerifyEqual(pb, fb, pc, fc, advArg("'")) {
		return
	}
	vs.Forked()
	vs.Reach("accepted twice")
	var v abstract.Secret = vs.SecretOf(pb.Suite, new(big.Int).Mod(ex[0], vs.Order(pb.Suite)))
	vs.Assert("same value", v.Equal(p1))
	for i := 1; i < 6; i++ {
		vs.Assert("integer commitment under the first generator", ex[i].Sign() == 0)
	}
}

// the commitments chosen after the challenge, as far as the announcements allow
func Sym_C08_commitments_afterwards() {
	pb, fb := symElems()
	pc := pb.CommitWithR(vs.AdvSecret(pb.Suite, "p1"), vs.AdvSecret(pb.Suite, "p2"))
	fc := fb.CommitWithR(advInt("f1"), advInt("f2"))
	if !VerifyEqual(pb, fb, pc, fc, advArg("")) {
		return
	}
	vs.Rewind()
	pc2 := pb.CommitWithR(vs.AdvSecret(pb.Suite, "p1'"), vs.AdvSecret(pb.Suite, "p2'"))
	fc2 := fb.CommitWithR(advInt("f1'"), advInt("f2'"))
	if !VerifyEqual(pb, fb, pc2, fc2, advArg("'")) {
		return
	}
	vs.Forked()
	vs.Reach("accepted twice")
	vs.Assert("Pedersen commitment fixed before the challenge", pc.Equal(pc2))
	vs.Assert("integer commitment fixed before the challenge", fc.Equal(fc2))
}

// values that are no commitments
func Sym_C08_zero() {
	pb, fb := symElems()
	pc := pb.CommitWithR(vs.AdvSecret(pb.Suite, "p1"), vs.AdvSecret(pb.Suite, "p2"))
	fc := fb.Point()
	if vs.Choose("what", 2) == 1 {
		fc.V.Set(fb.N)
	}
	vs.Assert("rejected", !VerifyEqual(pb, fb, pc, fc, advArg("")))
}

// an honest argument does not carry over to other commitments, nor survives changes
func Sym_C08_transfer() {
	pb, fb := symElems()
	x := vs.AnySecret(pb.Suite, "x")
	pc, pr := pb.Commit(x)
	fc, fr := fb.Commit(SecretToBigInt(x))
	arg := ProveEqual(pb, fb, x, pc, pr, fc, fr)
	y := vs.AnySecret(pb.Suite, "y")
	one := big.NewInt(1)
	d := vs.Big("d", one, new(big.Int).Lsh(one, 600))
	if vs.Choose("sign", 2) == 1 {
		d.Neg(d)
	}
	switch vs.Choose("what", 7) {
	case 0:
		vs.Assume(!y.Equal(x))
		vs.Assert("other Pedersen value", !VerifyEqual(pb, fb, pb.CommitWithR(y, pr), fc, arg))
	case 1:
		vs.Assume(!y.Equal(x))
		vs.Assert("other integer value", !VerifyEqual(pb, fb, pc, fb.CommitWithR(SecretToBigInt(y), fr), arg))
	case 2:
		vs.Assume(!y.Equal(x))
		vs.Assert("both moved", !VerifyEqual(pb, fb, pb.CommitWithR(y, pr), fb.CommitWithR(SecretToBigInt(y), fr), arg))
	case 3:
		vs.Assert("changed C", !VerifyEqual(pb, fb, pc, fc, &ARGequal{new(big.Int).Add(arg.C, d), arg.S1, arg.S2, arg.S3}))
	case 4:
		vs.Assert("changed S1", !VerifyEqual(pb, fb, pc, fc, &ARGequal{arg.C, new(big.Int).Add(arg.S1, d), arg.S2, arg.S3}))
	case 5:
		vs.Assume(new(big.Int).Mod(d, vs.Order(pb.Suite)).Sign() != 0)
		vs.Assert("changed S2", !VerifyEqual(pb, fb, pc, fc, &ARGequal{arg.C, arg.S1, new(big.Int).Add(arg.S2, d), arg.S3}))
	case 6:
		vs.Assert("changed S3", !VerifyEqual(pb, fb, pc, fc, &ARGequal{arg.C, arg.S1, arg.S2, new(big.Int).Add(arg.S3, d)}))
	}
}

// the generators of the round matter
func Sym_C08_other_generators() {
	pb, fb := symElems()
	x := vs.AnySecret(pb.Suite, "x")
	pc, pr := pb.Commit(x)
	fc, fr := fb.Commit(SecretToBigInt(x))
	arg := ProveEqual(pb, fb, x, pc, pr, fc, fr)
	e := vs.AnySecret(pb.Suite, "e")
	vs.Assume(!e.Equal(pb.Suite.Secret().One()))
	vs.Assume(!e.Equal(pb.Suite.Secret().Zero()))
	old := pb.HT
	pb.HT = pb.Suite.Point().Mul(old, e)
	vs.Assert("other blinding generator", !VerifyEqual(pb, fb, pc, fc, arg))
	pb.HT = old
	pb.GT = pb.Suite.Point().Mul(pb.GT, e)
	vs.Assert("other value generator", !VerifyEqual(pb, fb, pc, fc, arg))
}
