//sym:dir cmd
//sym:use common/launch.go
package main

import vs "zRep/verifsym"

// bridges live for one round of the coordinator's main loop
func Sym_C25_launched() {
	vs.FixDraws(true)
	d := NewDeployment(1, false)
	a, b := d.Start(), d.Start()
	d.EndPosting()
	d.EndVoting()
	d.CheckClients("second round")
	d.Post(a, "192.0.2.1:1")
	late := vs.Choose("when", 3)
	d.Get(b, 2)
	vs.Assert("as many as there are", len(b.Assignments) == 1)
	if late == 0 {
		d.Post(a, "192.0.2.2:2")
	}
	d.EndPosting()
	if late == 1 {
		d.Post(a, "192.0.2.2:2")
	}
	again := vs.Choose("asked again", 2) == 1 && late < 2
	if again {
		d.Get(b, 2)
		vs.Assert("the other one", len(b.Assignments) == 2)
		vs.Assert("different", b.Assignments[1].Assignment.Addr != b.Assignments[0].Assignment.Addr)
	}
	d.EndVoting()
	d.CheckClients("third round")
	d.Get(b, 2)
	vs.Assert("none of an earlier round", len(b.Assignments) == 0)
	d.Post(b, "192.0.2.2:2")
	d.Get(a, 1)
	vs.Assert("one of this round", len(a.Assignments) == 1)
	as := a.Assignments[0].Assignment
	vs.Assert("its provider, address and requester", as.Nym.Equal(b.OnetimePseudoNym) && as.NymR.Equal(a.OnetimePseudoNym) && as.Addr == "192.0.2.2:2")
}
