package verifsym

import (
	"math/big"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
)

// Order is the order of the suite's group.
func Order(s abstract.Suite) *big.Int {
	m := s.Secret().(*nist.Int).M
	return new(big.Int).Set(m)
}

// SecretOf turns an integer into a secret of the suite.
func SecretOf(s abstract.Suite, x *big.Int) abstract.Secret {
	m := s.Secret().(*nist.Int).M
	return nist.NewInt(0, m).Init(x, m)
}

// Secret is an honest random non-zero secret.
func Secret(s abstract.Suite, name string) abstract.Secret {
	q := Order(s)
	return SecretOf(s, Rnd(name, big.NewInt(1), q.Sub(q, big.NewInt(1))))
}

// AdvSecret is a secret chosen by the adversary.
func AdvSecret(s abstract.Suite, name string) abstract.Secret {
	q := Order(s)
	return SecretOf(s, AdvBig(name, new(big.Int), q.Sub(q, big.NewInt(1))))
}

// AnySecret is an arbitrary secret, fixed in advance.
func AnySecret(s abstract.Suite, name string) abstract.Secret {
	q := Order(s)
	return SecretOf(s, Big(name, new(big.Int), q.Sub(q, big.NewInt(1))))
}

// BigOf gives the value of a secret.
func BigOf(x abstract.Secret) *big.Int { return new(big.Int).Set(&x.(*nist.Int).V) }

// Point is a group element unrelated to all others.
func Point(s abstract.Suite, name string) abstract.Point {
	q := Order(s)
	p := new(big.Int).Lsh(q, 1)
	p.Add(p, big.NewInt(1))
	pt := s.Point()
	if err := pt.UnmarshalBinary(Elem(name, p).Bytes()); err != nil {
		panic(err)
	}
	return pt
}
