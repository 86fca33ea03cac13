//sym:dir primitive/fujiokam
package fujiokam

import (
	"math/big"

	vs "zRep/verifsym"
)

func symSquares(lo, hi int64) {
	x := vs.Big("x", big.NewInt(lo), big.NewInt(hi))
	a, b, d := decomposeThreeSquare(new(big.Int).Set(x))
	s := new(big.Int).Mul(a, a)
	t := new(big.Int).Mul(b, b)
	s.Add(s, t)
	t.Mul(d, d)
	s.Add(s, t)
	g := new(big.Int).Lsh(x, 2)
	g.Add(g, bigOne)
	vs.Assert("squares sum to 4x+1", s.Cmp(g) == 0)
}

func Sym_C05_small()  { symSquares(0, 120) }
func SymT_C05_large() { symSquares(121, 1000) }
