//sym:dir cmd
//sym:use common/launch.go
package main

import vs "zRep/verifsym"

// votes typed at the clients' prompts, over two rounds
func Sym_C30_launched() {
	vs.FixDraws(true)
	d := NewDeployment(1, false)
	a, b := d.Start(), d.Start()
	d.EndPosting()
	d.EndVoting()
	d.CheckClients("second round")
	d.Post(a, "192.0.2.1:1")
	d.Get(b, 1)
	d.EndPosting()
	f := vs.Int("feedback", 0, 1)*2 - 1
	line := "vote 0 -1"
	if f == 1 {
		line = "vote 0 1"
	}
	mark := vs.Sent()
	d.Type(b, line)
	vote := vs.SentData(mark)
	d.Type(b, line)
	if vs.Choose("other one", 2) == 1 {
		d.Type(b, "vote 0 1")
		d.Type(b, "vote 0 -1")
	}
	d.EndVoting()
	vs.Assert("once", a.Reputation == 5+f && b.Reputation == 5)
	d.CheckClients("third round")
	d.arrive(coAddr, vote)
	d.Post(a, "192.0.2.1:1")
	d.Get(b, 1)
	vs.Assert("served", len(b.Assignments) == 1)
	d.EndPosting()
	d.arrive(coAddr, vote)
	d.Type(b, "vote 0 1")
	d.arrive(coAddr, vote)
	d.EndVoting()
	vs.Assert("once in each round", a.Reputation == 5+f+1 && b.Reputation == 5)
	d.CheckClients("fourth round")
}
