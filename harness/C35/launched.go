//sym:dir cmd
//sym:use common/launch.go
package main

import vs "zRep/verifsym"

// clients that start at different times of a deployment run by its own main loops
func Sym_C35_launched() {
	vs.FixDraws(true)
	d := NewDeployment(2, false)
	when := vs.Choose("second starts", 3)
	d.Start()
	if when == 0 {
		d.Start()
	}
	d.EndPosting()
	if when == 1 {
		d.Start()
	}
	d.EndVoting()
	if when == 2 {
		d.Start()
		d.EndPosting()
		d.EndVoting()
	}
	d.CheckClients("once registered")
	vs.Assert("two entries", len(d.Co.EndingCommMap) == 2)
	for _, c := range d.Cl {
		vs.Assert("starting credit", c.Reputation == 5)
		d.Post(c, "192.0.2.1:1"+c.LocalAddr.String())
	}
	vs.Assert("take part", len(d.Co.Bridges) == 2)
	for _, c := range d.Cl {
		d.Get(c, 5)
	}
	vs.Assert("served", len(d.Cl[0].Assignments) == 2)
}
