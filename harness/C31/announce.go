//sym:dir cmd/server
//sym:use common/announced.go
package server

import (
	vs "zRep/verifsym"

	"github.com/dedis/crypto/abstract"
)

func chain(n, servers int) {
	s := newHop()
	t := anyTable(s.Suite, n)
	pm := t.params()
	for i := 0; i < servers; i++ {
		if i > 0 {
			s = newHop()
		}
		t, pm = announced(s, t, pm)
	}
}

func Sym_C31_first()   { chain(vs.Choose("clients", 5), 1) }
func SymT_C31_first5() { chain(5, 1) }

// the next server accepts and does the same
func Sym_C31_second()   { chain(vs.Choose("clients", 4), 2) }
func SymT_C31_second4() { chain(4, 2) }
func Sym_C31_third()    { chain(vs.Choose("clients", 2)+1, 3) }
func SymT_C31_third3()  { chain(3, 3) }

// later rounds of the same server use other exponents
func Sym_C31_again() {
	s := newHop()
	t := anyTable(s.Suite, vs.Choose("clients", 3))
	a, _ := announced(s, t, t.params())
	s.KeyMap = map[string]abstract.Point{}
	b, _ := announced(s, t, t.params())
	vs.Assert("fresh each time", !a.ht.Equal(b.ht))
}

// as many clients as a default deployment has
func Sym_C31_long() {
	vs.FixDraws(true)
	chain(12, 1)
}

func Sym_C31_long_second() {
	vs.FixDraws(true)
	chain(5, 2)
}

func SymT_C31_long_third() {
	vs.FixDraws(true)
	chain(6, 3)
}
