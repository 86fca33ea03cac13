//sym:dir primitive/lrs
package lrs

import (
	"math/big"
	"strconv"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"

	"zRep/util"
	vs "zRep/verifsym"
)

// a base whose generator is any power of the suite's generator
func symBase() *LRSBase {
	suite := nist.NewAES128SHA256QR512()
	return CreateBase(util.PointToBigInt(suite.Point().Mul(nil, vs.Secret(suite, "g"))))
}

// n members with arbitrary keys (equal ones included)
func symRing(base *LRSBase, n int) ([]abstract.Secret, []abstract.Point) {
	var x []abstract.Secret
	var y []abstract.Point
	g := util.BigIntToPoint(base.Suite, base.G)
	for i := 0; i < n; i++ {
		xi := vs.AnySecret(base.Suite, "x"+strconv.Itoa(i))
		x = append(x, xi)
		y = append(y, base.Suite.Point().Mul(g, xi))
	}
	return x, y
}

func symMul(p *big.Int, fs ...*big.Int) *big.Int {
	r := big.NewInt(1)
	for _, f := range fs {
		r.Mod(r.Mul(r, f), p)
	}
	return r
}
