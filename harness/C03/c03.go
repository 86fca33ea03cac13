//sym:dir primitive/fujiokam
package fujiokam

import (
	"math/big"

	"github.com/dedis/crypto/nist"
	vs "zRep/verifsym"
)

// an exponent of up to 2^700 in absolute value, negative ones included
func symInt(name string) *big.Int {
	l := new(big.Int).Lsh(bigOne, 700)
	return vs.Big(name, new(big.Int).Neg(l), l)
}

// g^x h^r computed with plain integer arithmetic
func refCommit(base *FujiOkamBase, x, r *big.Int) *big.Int {
	a := new(big.Int).Exp(&base.G1.V, x, base.N)
	b := new(big.Int).Exp(&base.H1.V, r, base.N)
	a.Mul(a, b)
	return a.Mod(a, base.N)
}

func Sym_C03_formula() {
	base := CreateBase()
	x, r := symInt("x"), symInt("r")
	x0, r0 := new(big.Int).Set(x), new(big.Int).Set(r)
	c := base.CommitWithR(x, r)
	vs.Assert("product of the two powers", c.V.Cmp(refCommit(base, x0, r0)) == 0)
	vs.Assert("modulus of the commitment", c.M.Cmp(base.N) == 0)
	vs.Assert("inputs unchanged", x.Cmp(x0) == 0 && r.Cmp(r0) == 0)
	// the exponents add up, negative ones cancel positive ones
	d := base.CommitWithR(new(big.Int).Neg(x), new(big.Int).Neg(r))
	d.Mul(d, c)
	vs.Assert("a value and its negative cancel", d.V.Cmp(bigOne) == 0)
}

func Sym_C03_commit() {
	base := CreateBase()
	x := symInt("x")
	x0 := new(big.Int).Set(x)
	c, r := base.Commit(x)
	vs.Assert("returned randomness opens it", c.V.Cmp(refCommit(base, x0, r)) == 0)
	radius := new(big.Int).Lsh(bigOne, 80)
	radius.Mul(radius, base.N)
	vs.Assert("randomness above -2^80 N", r.Cmp(new(big.Int).Neg(radius)) >= 0)
	vs.Assert("randomness below 2^80 N", r.Cmp(radius) <= 0)
	c2, r2 := base.Commit(x)
	vs.Assert("second opens", c2.V.Cmp(refCommit(base, x0, r2)) == 0)
	vs.Assert("fresh randomness", r.Cmp(r2) != 0)
	vs.Assert("first still opens", c.V.Cmp(refCommit(base, x0, r)) == 0)
}

// randomness reaches both halves of the interval
func Sym_C03_both_signs() {
	base := CreateBase()
	_, r := base.Commit(big.NewInt(5))
	radius := new(big.Int).Lsh(bigOne, 79)
	radius.Mul(radius, base.N)
	vs.Cover("large positive")
	vs.Cover("large negative")
	if r.Cmp(radius) > 0 {
		vs.Reach("large positive")
	}
	if r.Cmp(new(big.Int).Neg(radius)) < 0 {
		vs.Reach("large negative")
	}
	vs.Assert("drawn", r != nil)
}

// the client's copy of the parameters commits in the same way
func Sym_C03_minimal_base() {
	base := CreateBase()
	client := CreateMinimumBase(nist.NewAES128SHA256QR512(), new(big.Int).Set(base.N))
	client.G1 = client.Point().SetBigInt(base.G1.ToBigInt())
	client.H1 = client.Point().SetBigInt(base.H1.ToBigInt())
	x, r := symInt("x"), symInt("r")
	vs.Assert("same commitment", client.CommitWithR(x, r).Equal(base.CommitWithR(x, r)))
	c, s := client.Commit(x)
	vs.Assert("opens under the issuer's base", c.Equal(base.CommitWithR(x, s)))
}

// nobody opens a commitment to another integer
func Sym_C03_binding() {
	base := CreateBase()
	x := symInt("x")
	c, r := base.Commit(x)
	vs.Reveal(r)
	l := new(big.Int).Lsh(bigOne, 1300)
	x2 := vs.AdvBig("x2", new(big.Int).Neg(l), l)
	r2 := vs.AdvBig("r2", new(big.Int).Neg(l), l)
	vs.Assume(x2.Cmp(x) != 0)
	vs.Reach("another value")
	vs.Assert("binding", !c.Equal(base.CommitWithR(x2, r2)))
}
