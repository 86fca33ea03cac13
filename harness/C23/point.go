//sym:dir primitive/fujiokam
package fujiokam

import (
	"strconv"

	vs "zRep/verifsym"
)

func Sym_C23_points() {
	base := CreateBase()
	k := vs.Choose("points", 4)
	var l []*Point
	for i := 0; i < k; i++ {
		p := base.Point().SetBigInt(vs.Elem("p"+strconv.Itoa(i), base.N))
		q := base.Point().FromBinary(p.ToBinary())
		vs.Assert("point", q.Equal(p) && q.V.Cmp(&p.V) == 0)
		vs.Assert("integer", base.Point().SetBigInt(p.ToBigInt()).Equal(p))
		vs.Assert("modulus", q.M.Cmp(base.N) == 0)
		l = append(l, p)
	}
	r := base.BigIntArrayToPointArray(PointArrayToBigIntArray(l))
	vs.Assert("points", len(r) == k)
	for i := range r {
		vs.Assert("entry", r[i].Equal(l[i]) && r[i].M.Cmp(base.N) == 0)
	}
}
