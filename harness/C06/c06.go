//sym:dir primitive/fujiokam
package fujiokam

import (
	"math/big"

	vs "zRep/verifsym"
)

func advInt(name string) *big.Int { return vs.AdvBig(name, nil, nil) }

// an element the prover can form: any product of powers of the generators
func (base *FujiOkamBase) advPoint(name string, exps []*big.Int) *Point {
	gs := []*Point{base.G1, base.G2, base.G3, base.G4, base.G5, base.G6, base.H1}
	p := base.Point()
	p.V.SetInt64(1)
	t := base.Point()
	for i, g := range gs {
		exps[i] = advInt(name + string(rune('1'+i)))
		p.Mul(p, t.Exp(g, exps[i]))
	}
	return p
}

func symElems(base *FujiOkamBase) {
	// the exponents of the generators are unknown to the prover: independent elements
	for i, g := range []**Point{&base.G1, &base.G2, &base.G3, &base.G4, &base.G5, &base.G6, &base.H1} {
		*g = base.Point().SetBigInt(vs.Elem("g"+string(rune('1'+i)), base.N))
	}
}

// everything in the argument and the commitment itself is the prover's choice
func Sym_C06_forge() {
	base := CreateBase()
	symElems(base)
	ex := make([]*big.Int, 7)
	commitx := base.advPoint("x", ex)
	C := base.advPoint("C", make([]*big.Int, 7))
	Cr := base.advPoint("Cr", make([]*big.Int, 7))
	rx := base.advPoint("rx", make([]*big.Int, 7))
	arg := &ARGnonneg{Commitrx: &rx.V, C: &C.V, Cr: &Cr.V,
		R: advInt("R"), X_: advInt("X_"), A_: advInt("A_"), B_: advInt("B_"), D_: advInt("D_"), R_: advInt("R_")}
	if !base.VerifyNonneg(commitx, arg) {
		return
	}
	vs.Reach("accepted")
	vs.Assert("the committed integer is not negative", ex[0].Sign() >= 0)
	for i := 1; i < 6; i++ {
		vs.Assert("committed under the first generator only", ex[i].Sign() == 0)
	}
}
