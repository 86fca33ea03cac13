//sym:dir primitive/fujiokam
package fujiokam

import (
	"math/big"
	"strconv"

	vs "zRep/verifsym"
)

// response is a published number: a blinding plus e times a secret, which is small or large.
type response struct {
	name  string
	v, e  *big.Int
	large bool
}

// far is beyond everything a small secret can contribute.
var far = new(big.Int).Lsh(big.NewInt(1), 500)

// wide: the blinding is at least 2^80 times as large as what it blinds, and any of its bits can
// be either way.
func (r response) wide() {
	vs.Possible(r.name+" is wide", r.v.Cmp(far) > 0)
	for _, n := range []uint{0, 200, 450, 499} {
		bit := new(big.Int).Rsh(r.v, n)
		bit.Mod(bit, big.NewInt(2))
		vs.Possible(r.name+": bit "+strconv.Itoa(int(n))+" clear", bit.Sign() == 0)
		vs.Possible(r.name+": bit "+strconv.Itoa(int(n))+" set", bit.Sign() != 0)
	}
}

// apart: neither the sum nor the difference of two blindings always vanishes.
func apart(a, b response) {
	for _, s := range []int64{1, -1} {
		v := new(big.Int).Add(a.v, new(big.Int).Mul(big.NewInt(s), b.v))
		n := a.name + " plus " + b.name
		if s < 0 {
			n = a.name + " minus " + b.name
		}
		switch {
		case !a.large && !b.large:
			vs.Possible(n, v.Cmp(far) > 0)
		case a.e.Cmp(b.e) == 0:
			vs.Possible(n, new(big.Int).Mod(v, a.e).Sign() != 0)
		}
	}
}
