//sym:dir cmd
//sym:use common/launch.go
package main

import vs "zRep/verifsym"

// posts typed at the clients' prompts, in every round
func Sym_C26_launched() {
	vs.FixDraws(true)
	d := NewDeployment(1, false)
	a, b := d.Start(), d.Start()
	d.EndPosting()
	d.EndVoting()
	d.CheckClients("second round")
	for r := 0; r < 3; r++ {
		d.Post(a, "192.0.2.1:1")
		d.Post(b, "192.0.2.2:2")
		d.Post(b, "192.0.2.3:3")
		vs.Assert("recorded", len(d.Co.Bridges) == 3)
		vs.Assert("for the poster", d.Co.Bridges["192.0.2.1:1"].Nym.Equal(a.OnetimePseudoNym) &&
			d.Co.Bridges["192.0.2.2:2"].Nym.Equal(b.OnetimePseudoNym) && d.Co.Bridges["192.0.2.3:3"].Nym.Equal(b.OnetimePseudoNym))
		d.EndPosting()
		d.EndVoting()
		vs.Assert("none left", len(d.Co.Bridges) == 0)
	}
}
