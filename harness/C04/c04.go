//sym:dir primitive/fujiokam
package fujiokam

import (
	"math/big"

	vs "zRep/verifsym"
)

func symClient4(base *FujiOkamBase) *FujiOkamBase {
	c := CreateMinimumBase(base.Suite, base.N)
	c.G1, c.G2, c.G3, c.G4, c.G5, c.G6, c.H1 = base.G1, base.G2, base.G3, base.G4, base.G5, base.G6, base.H1
	return c
}

// every decomposition 4x+1 = (2s+1)^2 + (2t)^2 + (2u)^2, in any order
func Sym_C04_honest() {
	base := CreateBase()
	m := new(big.Int).Lsh(bigOne, 128)
	s, t, u := vs.Big("s", bigZero, m), vs.Big("t", bigZero, m), vs.Big("u", bigZero, m)
	x := new(big.Int).Mul(s, s)
	x.Add(x, s)
	x.Add(x, new(big.Int).Mul(t, t))
	x.Add(x, new(big.Int).Mul(u, u))
	a := new(big.Int).Add(new(big.Int).Lsh(s, 1), bigOne)
	b, d := new(big.Int).Lsh(t, 1), new(big.Int).Lsh(u, 1)
	switch vs.Choose("order", 3) {
	case 1:
		a, b = b, a
	case 2:
		a, d = d, a
	}
	vs.Stub("zRep/primitive/fujiokam.decomposeThreeSquare", func(y *big.Int) (*big.Int, *big.Int, *big.Int) {
		vs.Assert("decomposes the committed value", y.Cmp(x) == 0)
		return new(big.Int).Set(a), new(big.Int).Set(b), new(big.Int).Set(d)
	})
	c, r := base.Commit(x)
	prover := symClient4(base)
	arg := prover.ProveNonneg(x, c, r)
	verifier := symClient4(base)
	vs.Assert("accepted", verifier.VerifyNonneg(c, arg))
	vs.Assert("accepted by the issuer", base.VerifyNonneg(c, arg))
	vs.Assert("accepted again", verifier.VerifyNonneg(c, arg))
}

// chosen randomness of the commitment, negative included
func Sym_C04_given_randomness() {
	base := CreateBase()
	l := new(big.Int).Lsh(bigOne, 1200)
	r := vs.Big("r", new(big.Int).Neg(l), l)
	x := big.NewInt(int64(vs.Choose("x", 3)) * 7)
	c := base.CommitWithR(x, r)
	vs.Assert("accepted", symClient4(base).VerifyNonneg(c, base.ProveNonneg(x, c, r)))
}

func symNonneg(lo, hi int64) {
	base := CreateBase()
	x := vs.Big("x", big.NewInt(lo), big.NewInt(hi))
	c, r := base.Commit(x)
	vs.Assert("accepted", symClient4(base).VerifyNonneg(c, base.ProveNonneg(x, c, r)))
}

func Sym_C04_small()       { symNonneg(0, 12) }
func SymT_C04_small_more() { symNonneg(0, 120) }

func Sym_C04_negative() {
	base := CreateBase()
	l := new(big.Int).Lsh(bigOne, 700)
	x := vs.Big("x", new(big.Int).Neg(l), bigNegOne)
	c, r := base.Commit(x)
	vs.Assert("refused", vs.Panics(func() { base.ProveNonneg(x, c, r) }))
}
