//sym:dir cmd
//sym:use common/world.go
package main

import vs "zRep/verifsym"

// posts made by the client's own code
func Sym_C26_client() {
	w := NewWorld(1)
	w.Announce()
	a, b := w.Join(), w.Join()
	w.RoundEnd()
	w.Announce()
	w.Post(a, "192.0.2.1:1")
	w.Post(b, "192.0.2.2:2")
	w.Post(b, "192.0.2.3:3")
	vs.Assert("recorded", len(w.Co.Bridges) == 3)
	vs.Assert("for the poster", w.Co.Bridges["192.0.2.1:1"].Nym.Equal(a.OnetimePseudoNym) &&
		w.Co.Bridges["192.0.2.2:2"].Nym.Equal(b.OnetimePseudoNym) && w.Co.Bridges["192.0.2.3:3"].Nym.Equal(b.OnetimePseudoNym))
	w.RoundEnd()
	w.Announce()
	vs.Assert("none left", len(w.Co.Bridges) == 0)
	w.Post(a, "192.0.2.1:1")
	vs.Assert("posted in a later round", w.Co.Bridges["192.0.2.1:1"].Nym.Equal(a.OnetimePseudoNym))
}

// a newcomer who has not seen an announcement yet
func Sym_C26_newcomer() {
	w := NewWorld(1)
	w.Announce()
	a := w.Join()
	w.Post(a, "192.0.2.1:1")
	vs.Assert("recorded", len(w.Co.Bridges) == 1 && w.Co.Bridges["192.0.2.1:1"].Nym.Equal(a.OnetimePseudoNym))
}
