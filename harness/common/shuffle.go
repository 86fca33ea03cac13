//sym:dir util/shuffle
package shuffle

import (
	"strconv"

	vs "zRep/verifsym"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/proof"
)

// symInput is a list of pairs and the two bases of a shuffle.
type symInput struct {
	suite abstract.Suite
	g, h  abstract.Point // g may be nil, the standard base
	a     abstract.Secret
	x, y  []abstract.Point
}

// newInput makes k arbitrary unrelated pairs and bases with a known relation.
func newInput(k int, std bool) *symInput {
	in := &symInput{suite: nist.NewAES128SHA256QR512()}
	if !std {
		in.g = in.suite.Point().Mul(nil, vs.Secret(in.suite, "g"))
	}
	in.a = vs.Secret(in.suite, "a")
	in.h = in.suite.Point().Mul(in.g, in.a)
	for i := 0; i < k; i++ {
		in.x = append(in.x, in.elem("X"+strconv.Itoa(i)))
		in.y = append(in.y, in.elem("Y"+strconv.Itoa(i)))
	}
	return in
}

// elem is an arbitrary group element: an unknown one times an unknown power of the base.
func (in *symInput) elem(name string) abstract.Point {
	return vs.Point(in.suite, name)
}

func (in *symInput) cipher() abstract.Cipher { return in.suite.Cipher(abstract.RandomKey) }

func (in *symInput) prove(p proof.Prover, rand abstract.Cipher) []byte {
	prf, err := proof.HashProve(in.suite, "PairShuffle", rand, p)
	vs.Assert("proof made", err == nil)
	return prf
}

func (in *symInput) verify(xbar, ybar []abstract.Point, prf []byte) bool {
	v := Verifier(in.suite, in.g, in.h, in.x, in.y, xbar, ybar)
	return proof.HashVerify(in.suite, "PairShuffle", v, prf) == nil
}

// gens are the elements an adversary starts from.
func (in *symInput) gens() []abstract.Point {
	g := in.g
	if g == nil {
		g = in.suite.Point().Base()
	}
	l := []abstract.Point{g, in.h}
	l = append(l, in.x...)
	return append(l, in.y...)
}

// comb is any element an adversary can make from l.
func (in *symInput) comb(name string, l []abstract.Point) abstract.Point {
	r := in.suite.Point().Null()
	for i, p := range l {
		r.Add(r, in.suite.Point().Mul(p, vs.AdvSecret(in.suite, name+"."+strconv.Itoa(i))))
	}
	return r
}

func (in *symInput) plus(p, d abstract.Point) abstract.Point { return in.suite.Point().Add(p, d) }
