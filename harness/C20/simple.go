//sym:dir util/shuffle
package shuffle

import (
	"strconv"

	vs "zRep/verifsym"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/proof"
)

// a prover who runs the embedded simple shuffle on a list that is no multiple of a permutation
func symSimple(k int) {
	in := &symInput{suite: nist.NewAES128SHA256QR512()}
	g := in.suite.Point().Base()
	vs.RevealDraws(true)
	gamma := vs.Secret(in.suite, "gamma")
	Gamma := in.suite.Point().Mul(nil, gamma)
	var x, y []abstract.Secret
	for i := 0; i < k; i++ {
		x = append(x, vs.Secret(in.suite, "x"+strconv.Itoa(i)))
	}
	for i := 0; i < k; i++ {
		y = append(y, vs.AdvSecret(in.suite, "y"+strconv.Itoa(i)))
	}
	rand := in.cipher()
	ss := (&SimpleShuffle{}).Init(in.suite, k)
	prf, err := proof.HashProve(in.suite, "S", rand, func(ctx proof.ProverContext) error { return ss.Prove(g, gamma, x, y, rand, ctx) })
	vs.Assert("made", err == nil)
	sv := (&SimpleShuffle{}).Init(in.suite, k)
	if proof.HashVerify(in.suite, "S", func(ctx proof.VerifierContext) error { return sv.Verify(g, Gamma, ctx) }, prf) != nil {
		return
	}
	vs.Reach("accepted")
	for i := 0; i < k; i++ {
		some := false
		for j := 0; j < k; j++ {
			some = some || in.suite.Secret().Mul(gamma, x[j]).Equal(y[i])
		}
		vs.Assert("a permutation", some)
	}
}

func Sym_C20_simple() { symSimple(2) }
