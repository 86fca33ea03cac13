//sym:dir cmd/coordinator
//sym:use common/wevt.go
package coordinator

import (
	"strconv"

	"github.com/dedis/crypto/abstract"

	vs "zRep/verifsym"
)

// any number taken from a table in any state
func symTable(k int, used func(i int) bool) {
	c := newCoord(1)
	was := map[string]bool{}
	nym := map[string]abstract.Point{}
	var addrs []string
	free := 0
	for i := 0; i < k; i++ {
		addr := "192.0.2.1:" + strconv.Itoa(i)
		nym[addr] = c.Suite.Point().Mul(c.G, vs.Secret(c.Suite, addr))
		c.AddBridge(addr, nym[addr])
		addrs = append(addrs, addr)
		if used(i) {
			b := c.Bridges[addr]
			b.Used = true
			c.Bridges[addr] = b
			was[addr] = true
		} else {
			free++
		}
	}
	me := c.Suite.Point().Mul(c.G, vs.Secret(c.Suite, "me"))
	num := vs.Int("num", -1<<31, 1<<31-1)
	l := c.AssignBridges(num, me)
	vs.Assert("never more than requested", len(l) <= num || len(l) == 0)
	vs.Assert("as many as possible", len(l) == free || len(l) == num || num < 0 && len(l) == 0)
	vs.Assert("no more than there are", len(l) <= free)
	got := map[string]bool{}
	for _, a := range l {
		vs.Assert("requester", a.NymR.Equal(me))
		p, ok := nym[a.Addr]
		vs.Assert("posted", ok)
		vs.Assert("provider", a.Nym.Equal(p))
		vs.Assert("free before", !was[a.Addr])
		vs.Assert("once", !got[a.Addr])
		got[a.Addr] = true
	}
	vs.Assert("size of the table", len(c.Bridges) == k)
	for _, addr := range addrs {
		b, ok := c.Bridges[addr]
		vs.Assert("still there", ok && b.Nym.Equal(nym[addr]))
		vs.Assert("taken exactly if assigned", b.Used == (was[addr] || got[addr]))
	}
}

func Sym_C25_table() {
	k := vs.Choose("k", 5)
	symTable(k, func(i int) bool { return vs.Choose("used"+strconv.Itoa(i), 2) == 1 })
}

func Sym_C25_table_long() {
	k := 12
	if vs.Thorough() {
		k = 40
	}
	every := 2 + vs.Choose("every", 3)
	symTable(k, func(i int) bool { return i%every == 0 })
}

// whatever order the table is walked in
func Sym_C25_table_order() {
	vs.AnyMapOrder(true)
	symTable(2+vs.Choose("k", 2), func(i int) bool { return i == 0 })
}
