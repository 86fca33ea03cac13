//sym:dir cmd/client
//sym:use common/wclient.go
package client

import (
	"bytes"
	"math/big"

	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen_fujiokam"
	"zRep/proto"
	"zRep/util"
	vs "zRep/verifsym"
)

type parts struct {
	arg *fujiokam.ARGnonneg
	eq  *pedersen_fujiokam.ARGequal
	pm  map[string]interface{}
}

// asked is what a client publishes when it asks for n bridges.
func asked(c *DissentClient, n int) parts {
	mark := vs.Sent()
	SymRequest(c, n)
	vs.Assert("asks", vs.Sent() == mark+1)
	e, _ := util.DecodeEvent(vs.SentData(mark))
	vs.Assert("request", e.EventType == proto.REQUEST_BRIDGES)
	return parts{util.DecodeARGnonneg(e.Params["arg_nonneg"].([]byte)), util.DecodeARGequal(e.Params["arg_equal"].([]byte)), e.Params}
}

func (p parts) small() map[string]*big.Int {
	return map[string]*big.Int{"x": p.arg.X_, "a": p.arg.A_, "b": p.arg.B_, "d": p.arg.D_, "s1": p.eq.S1}
}

var names = []string{"x", "a", "b", "d", "s1"}

// two requests of the same client: nothing of one can be computed from the other
func Sym_C43_request() {
	vs.FixHash(true)
	base := fujiokam.CreateBase()
	c := SymNew("127.0.0.1:30001", "127.0.0.1:12345")
	c.FujiOkamBase = fujiokam.CreateMinimumBase(c.Suite, base.N)
	b := c.FujiOkamBase
	b.G1, b.G2, b.G3, b.G4, b.G5, b.G6, b.H1 = base.G1, base.G2, base.G3, base.G4, base.G5, base.G6, base.H1
	c.G = c.Suite.Point().Mul(nil, vs.Secret(c.Suite, "g"))
	c.OnetimePseudoNym = c.Suite.Point().Mul(c.G, c.PrivateKey)
	c.Reputation = vs.Choose("reputation", 3)
	c.PCommr, c.R = c.PedersenBase.Commit(c.Suite.Secret().SetInt64(int64(c.Reputation)))
	c.Status = MESSAGE
	n := vs.Choose("n", c.Reputation+1)
	p := asked(c, n)
	q := asked(c, n)
	ps, qs := p.small(), q.small()

	far := func(label string, v *big.Int) {
		vs.Possible(label, v.Cmp(new(big.Int).Lsh(big.NewInt(1), 500)) > 0)
	}
	for i, x := range names {
		far(x, ps[x])
		for _, y := range names[i+1:] {
			far(x+" minus "+y, new(big.Int).Sub(ps[x], ps[y]))
			far(x+" plus "+y, new(big.Int).Add(ps[x], ps[y]))
		}
		for _, y := range names {
			far(x+" minus the other "+y, new(big.Int).Sub(ps[x], qs[y]))
			far(x+" plus the other "+y, new(big.Int).Add(ps[x], qs[y]))
		}
	}
	far("rind", new(big.Int).SetBytes(p.pm["rind"].([]byte)))
	for _, f := range []string{"FOCommd", "PCommd", "PCommind", "rind"} {
		vs.Possible("fresh "+f, !bytes.Equal(p.pm[f].([]byte), q.pm[f].([]byte)))
	}
}
