//sym:dir cmd
//sym:use common/launch.go
package main

import (
	"zRep/cmd/client"
	vs "zRep/verifsym"
)

// votes has c judge all its undecided assignments of this round, and says what that changes for each client.
func (d *Deployment) judge(c *client.DissentClient, from int) map[*client.DissentClient]int {
	res := map[*client.DissentClient]int{}
	for i := from; i < len(c.Assignments); i++ {
		f := vs.Choose("feedback", 3) - 1
		if f == 0 {
			continue
		}
		d.VoteOn(c, i, f)
		for _, p := range d.Cl {
			if c.Assignments[i].Assignment.Nym.Equal(p.OnetimePseudoNym) {
				res[p] += f
			}
		}
	}
	return res
}

// a deployment run by the programs' own main loops, for two rounds with votes
func launched(servers int) {
	d := NewDeployment(servers, false)
	a, b := d.Start(), d.Start()
	d.EndPosting()
	d.EndVoting()
	d.CheckClients("second round")
	rounds := 2
	if vs.Thorough() {
		rounds = 3
	}
	for r := 0; r < rounds; r++ {
		d.Post(a, "192.0.2.1:1")
		d.Post(b, "192.0.2.2:2")
		n := len(b.Assignments)
		d.Get(b, 2)
		vs.Assert("served", len(b.Assignments) == n+2)
		d.EndPosting()
		change := d.judge(b, n)
		old := []int{a.Reputation, b.Reputation}
		d.EndVoting()
		vs.Assert("feedback counted", a.Reputation == old[0]+change[a] && b.Reputation == old[1]+change[b])
		d.CheckClients("later round")
	}
}

func Sym_C34_launched()          { vs.FixDraws(true); launched(1) }
func Sym_C34_launched_servers()  { vs.FixDraws(true); launched(2) }
func SymT_C34_launched_shuffle() { launched(1) }

// the first round starts with fake clients, and only the first
func Sym_C34_fakes() {
	vs.FixDraws(true)
	d := NewDeployment(1, true)
	vs.Assert("fake clients", len(d.Co.EndingCommMap) == 10)
	a := d.Start()
	d.EndPosting()
	d.EndVoting()
	d.CheckClients("second round")
	vs.Assert("one more", len(d.Co.EndingCommMap) == 11)
	d.Post(a, "192.0.2.1:1")
	d.Get(a, 1)
	vs.Assert("served", len(a.Assignments) == 1)
	d.EndPosting()
	d.VoteOn(a, 0, 1)
	d.EndVoting()
	vs.Assert("feedback counted", a.Reputation == 6)
	d.CheckClients("third round")
	vs.Assert("no more", len(d.Co.EndingCommMap) == 11)
}
