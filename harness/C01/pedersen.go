//sym:dir primitive/pedersen
package pedersen

import (
	"github.com/dedis/crypto/nist"
	vs "zRep/verifsym"
)

// the commitment returned by Commit opens with the returned randomness, for any value and generators
func Sym_C01_open() {
	base := CreateBase()
	x := vs.AnySecret(base.Suite, "x")
	c, r := base.Commit(x)
	vs.Assert("opens", base.Verify(x, r, c))
	// the generators are renewed every round: the base must follow them
	a := vs.AnySecret(base.Suite, "a")
	b := vs.AnySecret(base.Suite, "b")
	base.HT = base.Suite.Point().Mul(base.HT, a)
	base.GT = base.Suite.Point().Mul(base.GT, b)
	c2, r2 := base.Commit(x)
	vs.Assert("opens-new-generators", base.Verify(x, r2, c2))
	y := vs.AnySecret(base.Suite, "y")
	s := vs.AnySecret(base.Suite, "s")
	vs.Assert("opens-given-randomness", base.Verify(y, s, base.CommitWithR(y, s)))
}

// the value of the commitment is the documented one
func Sym_C01_formula() {
	base := CreateBase()
	q := base.Suite
	ga := vs.AnySecret(q, "ga")
	ha := vs.AnySecret(q, "ha")
	base.GT = q.Point().Mul(nil, ga)
	base.HT = q.Point().Mul(nil, ha)
	x := vs.AnySecret(q, "x")
	c, r := base.Commit(x)
	e := q.Secret().Add(q.Secret().Mul(ga, x), q.Secret().Mul(ha, r))
	vs.Assert("formula", c.Equal(q.Point().Mul(nil, e)))
	c1 := base.CommitWithR(x, r)
	vs.Assert("formula-given-randomness", c1.Equal(q.Point().Mul(nil, e)))
	vs.Assert("verify-is-the-formula", base.Verify(x, r, q.Point().Mul(nil, e)))
}

// nobody opens a commitment in two ways without the logarithm between the generators
func Sym_C01_binding() {
	base := CreateBase()
	x := vs.AnySecret(base.Suite, "x")
	c, r := base.Commit(x)
	vs.Reveal(vs.BigOf(r))
	x2 := vs.AdvSecret(base.Suite, "x2")
	r2 := vs.AdvSecret(base.Suite, "r2")
	vs.Assume(!x2.Equal(x) || !r2.Equal(r))
	vs.Reach("another opening")
	vs.Assert("binding", !base.Verify(x2, r2, c))
}

// the same for commitments the adversary formed itself, under renewed generators
func Sym_C01_binding_own() {
	base := CreateMinimalBaseFromSuite(nist.NewAES128SHA256QR512())
	s := vs.Secret(base.Suite, "s")
	t := vs.Secret(base.Suite, "t")
	base.HT = base.Suite.Point().Mul(base.HT, s)
	base.GT = base.Suite.Point().Mul(base.GT, t)
	x1, r1 := vs.AdvSecret(base.Suite, "x1"), vs.AdvSecret(base.Suite, "r1")
	x2, r2 := vs.AdvSecret(base.Suite, "x2"), vs.AdvSecret(base.Suite, "r2")
	vs.Assume(!x2.Equal(x1))
	c := base.CommitWithR(x1, r1)
	vs.Assert("binding", !base.Verify(x2, r2, c))
}

// two commitments to the same value never share their randomness
func Sym_C01_fresh() {
	base := CreateBase()
	x := vs.AnySecret(base.Suite, "x")
	_, r1 := base.Commit(x)
	_, r2 := base.Commit(x)
	vs.Assert("fresh randomness", !r1.Equal(r2))
}
