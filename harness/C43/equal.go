//sym:dir primitive/pedersen_fujiokam
package pedersen_fujiokam

import (
	"math/big"

	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen"
	vs "zRep/verifsym"
)

// each response of the argument is blinded on its own, and again the next time
func Sym_C43_equal() {
	vs.FixHash(true)
	pb := pedersen.CreateBase()
	fb := fujiokam.CreateBase()
	x := pb.Suite.Secret().SetInt64(int64(vs.Choose("x", 3) * 3))
	pr := pb.Suite.Secret().SetInt64(int64(vs.Choose("pr", 2)))
	fr := big.NewInt(int64(vs.Choose("fr", 2)))
	pc := pb.CommitWithR(x, pr)
	fc := fb.CommitWithR(SecretToBigInt(x), fr)
	p := ProveEqual(pb, fb, x, pc, pr, fc, fr)
	q := ProveEqual(pb, fb, x, pc, pr, fc, fr)
	one := []*big.Int{p.S1, p.S2, p.S3}
	two := []*big.Int{q.S1, q.S2, q.S3}
	names := []string{"s1", "s2", "s3"}
	far := new(big.Int).Lsh(big.NewInt(1), 500)
	for i, a := range one {
		vs.Possible(names[i]+" is wide", a.Cmp(far) > 0)
		for _, n := range []uint{0, 200, 450} {
			bit := new(big.Int).Rsh(a, n)
			vs.Possible(names[i]+" varies", bit.Mod(bit, big.NewInt(2)).Sign() != 0)
		}
		for j, b := range one[i+1:] {
			vs.Possible(names[i]+" minus "+names[i+1+j], new(big.Int).Sub(a, b).Cmp(far) > 0)
		}
		for j, b := range two {
			vs.Possible(names[i]+" minus the other "+names[j], new(big.Int).Sub(a, b).Cmp(far) > 0)
		}
	}
}
