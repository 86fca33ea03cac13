//sym:dir primitive/fujiokam
package fujiokam

import (
	"math/big"

	vs "zRep/verifsym"
)

func Sym_C39_structure() {
	base := CreateBase()
	dp := new(big.Int).Add(new(big.Int).Lsh(base.P, 1), bigOne)
	dq := new(big.Int).Add(new(big.Int).Lsh(base.Q, 1), bigOne)
	vs.Assert("modulus is the product", base.N.Cmp(new(big.Int).Mul(dp, dq)) == 0)
	vs.Assert("safe primes", dp.ProbablyPrime(20) && dq.ProbablyPrime(20) && base.P.ProbablyPrime(20) && base.Q.ProbablyPrime(20))
	vs.Assert("distinct primes", base.P.Cmp(base.Q) != 0)
	vs.Assert("512 bit primes", dp.BitLen() == 512 && dq.BitLen() == 512)
	gs := []*Point{base.G1, base.G2, base.G3, base.G4, base.G5, base.G6}
	as := []*big.Int{base.alpha1, base.alpha2, base.alpha3, base.alpha4, base.alpha5, base.alpha6}
	radius := new(big.Int).Lsh(bigOne, 80)
	radius.Mul(radius, base.N)
	vs.Assert("radius", base.RandomRadius.Cmp(radius) == 0)
	for i, g := range gs {
		vs.Assert("generator is a power of H1", g.V.Cmp(new(big.Int).Exp(&base.H1.V, as[i], base.N)) == 0)
		vs.Assert("generator modulus", g.M.Cmp(base.N) == 0)
		for j := 0; j < i; j++ {
			vs.Assert("independent exponents", as[i].Cmp(as[j]) != 0)
		}
	}
	vs.Assert("H1 is a square", big.Jacobi(&base.H1.V, dp) == 1 && big.Jacobi(&base.H1.V, dq) == 1)
	vs.Assert("H1 is not trivial", base.H1.V.Cmp(bigOne) != 0 && base.H1.V.Sign() > 0 && base.H1.V.Cmp(base.N) < 0)
}
