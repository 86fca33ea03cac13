//sym:dir cmd
//sym:use common/world.go
package main

import (
	"strconv"

	"zRep/cmd/bridge"
	vs "zRep/verifsym"
)

// many clients, each served in each of several rounds
func many(servers, n, rounds int) {
	vs.FixDraws(true)
	w := NewWorld(servers)
	w.Announce()
	for i := 0; i < n; i++ {
		w.Join()
	}
	for round := 0; round < rounds; round++ {
		w.RoundEnd()
		w.Announce()
		w.CheckClients("round " + strconv.Itoa(round))
		for _, c := range w.Cl {
			c.Assignments = nil
		}
		w.Post(w.Cl[round], "192.0.2.1:1")
		w.Post(w.Cl[n-1-round], "192.0.2.1:2")
		for i, c := range w.Cl {
			mark := vs.Sent()
			w.Request(c, i%(bridge.StartingCredit+1))
			w.checkAccepted(mark)
		}
		served := 0
		for _, c := range w.Cl {
			served += len(c.Assignments)
		}
		vs.Assert("both bridges handed out", served == 2)
	}
}

func Sym_C27_many()  { many(2, 4, 3) }
func Sym_C27_more()  { many(1, 12, 1) }
func SymT_C27_most() { many(1, 12, 4) }
func SymT_C27_hops() { many(2, 6, 3) }
