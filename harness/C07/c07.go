//sym:dir primitive/pedersen_fujiokam
package pedersen_fujiokam

import (
	"math/big"

	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen"
	vs "zRep/verifsym"
)

func symBases() (*pedersen.PedersenBase, *fujiokam.FujiOkamBase, *pedersen.PedersenBase, *fujiokam.FujiOkamBase) {
	pb := pedersen.CreateBase()
	// generators of a later round
	pb.GT = pb.Suite.Point().Mul(pb.GT, vs.AnySecret(pb.Suite, "e1"))
	pb.HT = pb.Suite.Point().Mul(pb.HT, vs.AnySecret(pb.Suite, "e2"))
	fb := fujiokam.CreateBase()
	pv := pedersen.CreateMinimalBaseFromSuite(pb.Suite)
	pv.GT, pv.HT = pb.GT, pb.HT
	fv := fujiokam.CreateMinimumBase(pb.Suite, fb.N)
	fv.G1 = fv.Point().SetBigInt(fb.G1.ToBigInt())
	fv.H1 = fv.Point().SetBigInt(fb.H1.ToBigInt())
	return pb, fb, pv, fv
}

func Sym_C07_honest() {
	pb, fb, pv, fv := symBases()
	x := vs.AnySecret(pb.Suite, "x")
	pc, pr := pb.Commit(x)
	fc, fr := fb.Commit(SecretToBigInt(x))
	arg := ProveEqual(pv, fv, x, pc, pr, fc, fr)
	vs.Assert("accepted", VerifyEqual(pv, fv, pc, fc, arg))
	vs.Assert("accepted by the issuer", VerifyEqual(pb, fb, pc, fc, arg))
	vs.Assert("the opening is unchanged", pb.Verify(x, pr, pc) && fb.CommitWithR(SecretToBigInt(x), fr).Equal(fc))
	arg2 := ProveEqual(pv, fv, x, pc, pr, fc, fr)
	vs.Assert("accepted again", VerifyEqual(pv, fv, pc, fc, arg2))
	vs.Assert("first still accepted", VerifyEqual(pv, fv, pc, fc, arg))
	vs.Assert("responses do not repeat", arg.S1.Cmp(arg2.S1) != 0)
}

// arbitrary given randomness, negative too
func Sym_C07_given_randomness() {
	pb, fb, pv, fv := symBases()
	x, pr := vs.AnySecret(pb.Suite, "x"), vs.AnySecret(pb.Suite, "pr")
	l := new(big.Int).Lsh(big.NewInt(1), 1300)
	fr := vs.Big("fr", new(big.Int).Neg(l), l)
	pc := pb.CommitWithR(x, pr)
	fc := fb.CommitWithR(SecretToBigInt(x), fr)
	vs.Assert("accepted", VerifyEqual(pv, fv, pc, fc, ProveEqual(pv, fv, x, pc, pr, fc, fr)))
}

// the commitment of a difference, as in bridge requests
func Sym_C07_difference() {
	pb, fb, pv, fv := symBases()
	x := vs.AnySecret(pb.Suite, "x")
	c, r := pb.Commit(x)
	d := vs.AnySecret(pb.Suite, "d")
	dc, dr := pb.Commit(d)
	e := pb.Suite.Secret().Sub(x, d)
	pc, pr := pb.Sub(c, dc), pb.Suite.Secret().Sub(r, dr)
	fc, fr := fb.Commit(SecretToBigInt(e))
	vs.Assert("accepted", VerifyEqual(pv, fv, pc, fc, ProveEqual(pv, fv, e, pc, pr, fc, fr)))
}

// conversions between secrets and integers
func Sym_C07_conversion() {
	pb := pedersen.CreateBase()
	q := vs.Order(pb.Suite)
	l := new(big.Int).Lsh(big.NewInt(1), 1300)
	i := vs.Big("i", new(big.Int).Neg(l), l)
	s := BigIntToSecret(pb.Suite, i)
	vs.Assert("residue", SecretToBigInt(s).Cmp(new(big.Int).Mod(i, q)) == 0)
	x := vs.AnySecret(pb.Suite, "x")
	vs.Assert("round trip", BigIntToSecret(pb.Suite, SecretToBigInt(x)).Equal(x))
}
