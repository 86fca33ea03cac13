//sym:dir primitive/pedersen
package pedersen

import (
	vs "zRep/verifsym"
)

func symBase() *PedersenBase {
	base := CreateBase()
	q := base.Suite
	base.GT = q.Point().Mul(nil, vs.AnySecret(q, "ga"))
	base.HT = q.Point().Mul(base.HT, vs.AnySecret(q, "ha"))
	return base
}

// sums and differences of commitments commit to sums and differences
func Sym_C02_add_sub() {
	base := symBase()
	q := base.Suite
	x1, x2 := vs.AnySecret(q, "x1"), vs.AnySecret(q, "x2")
	c1, r1 := base.Commit(x1)
	c2, r2 := base.Commit(x2)
	sum := base.Add(c1, c2)
	vs.Assert("sum opens", base.Verify(q.Secret().Add(x1, x2), q.Secret().Add(r1, r2), sum))
	diff := base.Sub(c1, c2)
	vs.Assert("difference opens", base.Verify(q.Secret().Sub(x1, x2), q.Secret().Sub(r1, r2), diff))
	vs.Assert("operands unchanged", base.Verify(x1, r1, c1) && base.Verify(x2, r2, c2))
	// the way reputations are updated: negative feedback as a secret
	d := vs.Int("d", -1000000, 1000000)
	cd, rd := base.Commit(q.Secret().SetInt64(int64(d)))
	upd := base.Add(c1, cd)
	vs.Assert("feedback", base.Verify(q.Secret().Add(x1, q.Secret().SetInt64(int64(d))), q.Secret().Add(r1, rd), upd))
	back := base.Sub(upd, cd)
	vs.Assert("subtraction undoes addition", back.Equal(c1))
}

// a randomised commitment is the commitment under randomised generators
func Sym_C02_randomize() {
	base := symBase()
	q := base.Suite
	x := vs.AnySecret(q, "x")
	c, r := base.Commit(x)
	cr, e := base.Randomize(c)
	vs.Assert("raised to the returned exponent", cr.Equal(q.Point().Mul(c, e)))
	vs.Assert("original unchanged", base.Verify(x, r, c))
	nb := &PedersenBase{Suite: q, HT: q.Point().Mul(base.HT, e), GT: q.Point().Mul(base.GT, e)}
	vs.Assert("opens under raised generators", nb.Verify(x, r, cr))
	// and again, as in the next round
	cr2, e2 := nb.Randomize(cr)
	nb2 := &PedersenBase{Suite: q, HT: q.Point().Mul(nb.HT, e2), GT: q.Point().Mul(nb.GT, e2)}
	vs.Assert("opens after two rounds", nb2.Verify(x, r, cr2))
	_, e3 := base.Randomize(c)
	vs.Assert("fresh exponent", !e3.Equal(e))
	// sums of randomised commitments
	y := vs.AnySecret(q, "y")
	d := nb.CommitWithR(y, r)
	vs.Assert("sum after randomisation", nb.Verify(q.Secret().Add(x, y), q.Secret().Add(r, r), nb.Add(cr, d)))
}
