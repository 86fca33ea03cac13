//sym:dir primitive/fujiokam
//sym:use common/goals.go
package fujiokam

import (
	"math/big"

	vs "zRep/verifsym"
)

func responses(arg *ARGnonneg, tag string) []response {
	e := vs.LastHash()
	return []response{{"x" + tag, arg.X_, e, false}, {"a" + tag, arg.A_, e, false}, {"b" + tag, arg.B_, e, false}, {"d" + tag, arg.D_, e, false}, {"r" + tag, arg.R_, e, true}, {"R" + tag, arg.R, e, false}}
}

// each response of the argument is blinded on its own, and again in the next argument
func Sym_C43_nonneg() {
	vs.FixHash(true)
	base := CreateBase()
	x := big.NewInt(int64(vs.Choose("x", 3)) * 3)
	rc := new(big.Int)
	c := base.CommitWithR(x, rc)
	rs := responses(base.ProveNonneg(x, c, rc), "")
	others := responses(base.ProveNonneg(x, c, rc), "'")
	for i, r := range rs {
		r.wide()
		for _, q := range rs[i+1:] {
			apart(r, q)
		}
		for _, q := range others {
			apart(r, q)
		}
	}
}

// the randomness of commitments
func Sym_C43_commit() {
	base := CreateBase()
	x := vs.Big("x", bigZero, big.NewInt(1000))
	_, r := base.Commit(x)
	_, r2 := base.Commit(x)
	a, b := response{"randomness", r, bigOne, false}, response{"the next randomness", r2, bigOne, false}
	a.wide()
	apart(a, b)
	m := new(big.Int).Lsh(base.N, 40)
	vs.Possible("longer than the modulus", r.Cmp(m) > 0)
	vs.Possible("negative", new(big.Int).Add(r, m).Sign() < 0)
}
