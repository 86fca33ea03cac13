//sym:dir cmd/bridge
package bridge

import (
	"strconv"

	"github.com/dedis/crypto/nist"
	vs "zRep/verifsym"
)

func symAssignment(n string) *Assignment {
	suite := nist.NewAES128SHA256QR512()
	return &Assignment{NymR: suite.Point().Mul(nil, vs.AnySecret(suite, "r"+n)), Addr: vs.Str("addr"+n, length(n)), Nym: suite.Point().Mul(nil, vs.AnySecret(suite, "p"+n))}
}

// length of an address: anything small for the first ones
func length(n string) int {
	switch n {
	case "", "0", "1", "2":
		return vs.Choose("len"+n, 3)
	}
	return 3
}

func symSame(a, b *Assignment) {
	vs.Assert("requester", a.NymR.Equal(b.NymR))
	vs.Assert("address", a.Addr == b.Addr)
	vs.Assert("provider", a.Nym.Equal(b.Nym))
}

func Sym_C23_assignment() {
	a := symAssignment("")
	symSame(DecodeAssignment(EncodeAssignment(a)), a)
}

func Sym_C23_assignments() {
	k := vs.Choose("entries", 6)
	if k > 3 {
		k *= 4 // long lists
	}
	var l []Assignment
	for i := 0; i < k; i++ {
		l = append(l, *symAssignment(strconv.Itoa(i)))
	}
	r := DecodeAssignmentList(EncodeAssignmentList(l))
	vs.Assert("entries", len(r) == k)
	for i := range r {
		symSame(&r[i], &l[i])
	}
}
