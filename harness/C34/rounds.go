//sym:dir cmd
//sym:use common/world.go
package main

import (
	"strconv"

	"zRep/cmd/client"
	"zRep/cmd/coordinator"
	vs "zRep/verifsym"
)

// one client beside a fake one, with any score change
func Sym_C34_one() {
	w := NewWorld(1)
	coordinator.SymFake(w.Co, 1)
	w.Announce()
	a := w.Join()
	w.RoundEnd()
	w.Announce()
	w.CheckClients("second round")
	diff := vs.Int("diff", -1000, 1000)
	w.Co.ReputationDiffMap[a.OnetimePseudoNym.String()] = diff
	old := a.Reputation
	w.RoundEnd()
	vs.Assert("feedback counted", a.Reputation == old+diff)
	w.Announce()
	w.CheckClients("third round")
}

// two clients, each with any score changes in two rounds
func Sym_C34_two() { two(1) }

// the same with two servers
func Sym_C34_two_servers() { two(2) }

func two(servers int) {
	w := NewWorld(servers)
	w.Announce()
	w.Join()
	w.Join()
	w.RoundEnd()
	w.Announce()
	w.CheckClients("second round")
	w.diffs("1")
	if servers == 1 || vs.Thorough() {
		w.diffs("2")
	}
}

func (w *World) diffs(tag string) {
	old := []int{}
	ds := []int{}
	for i, c := range w.Cl {
		d := vs.Int("diff"+tag+string(rune('a'+i)), -1000, 1000)
		voted := true
		if i == 0 && len(w.Sv) == 1 && tag == "1" || vs.Thorough() {
			voted = vs.Choose("voted", 2) == 1
		}
		if voted {
			w.Co.ReputationDiffMap[c.OnetimePseudoNym.String()] = d
		} else {
			d = 0
		}
		ds = append(ds, d)
		old = append(old, c.Reputation)
	}
	w.RoundEnd()
	for i, c := range w.Cl {
		vs.Assert("feedback counted", c.Reputation == old[i]+ds[i])
	}
	w.Announce()
	w.CheckClients("round " + tag)
}

// score changes that come from real posts, requests and votes
func Sym_C34_votes() {
	w := NewWorld(1)
	w.Announce()
	a := w.Join()
	b := w.Join()
	w.RoundEnd()
	w.Announce()
	w.Post(a, "192.0.2.1:1")
	w.Post(b, "192.0.2.3:3")
	n := 2
	if vs.Thorough() {
		w.Post(a, "192.0.2.2:2")
		n = 3
	}
	w.Request(b, n)
	vs.Assert("served", len(b.Assignments) == n)
	w.Vote()
	da, db := 0, 0
	for i, info := range b.Assignments {
		f := vs.Choose("feedback", 3) - 1
		if f == 0 {
			continue
		}
		w.VoteFor(b, i, f)
		if info.Assignment.Nym.Equal(a.OnetimePseudoNym) {
			da += f
		} else {
			db += f
		}
	}
	ra, rb := a.Reputation, b.Reputation
	w.RoundEnd()
	vs.Assert("feedback counted", a.Reputation == ra+da)
	vs.Assert("feedback counted", b.Reputation == rb+db)
	w.Announce()
	w.CheckClients("after votes")
	_ = client.MESSAGE
}

// a newcomer in the middle of a round
func Sym_C34_newcomer() {
	w := NewWorld(1)
	w.Announce()
	a := w.Join()
	w.RoundEnd()
	w.Announce()
	w.CheckClients("one")
	d := vs.Int("diff", -1000, 1000)
	w.Co.ReputationDiffMap[a.OnetimePseudoNym.String()] = d
	w.Join()
	w.RoundEnd()
	vs.Assert("feedback counted", a.Reputation == 5+d)
	w.Announce()
	w.CheckClients("both")
}

// as many clients as a default deployment has, over several rounds
func long(n, rounds int) {
	vs.FixDraws(true)
	w := NewWorld(1)
	w.Announce()
	for i := 0; i < n; i++ {
		w.Join()
	}
	w.RoundEnd()
	w.Announce()
	w.CheckClients("second round")
	for r := 0; r < rounds; r++ {
		var want []int
		for i, c := range w.Cl {
			d := 0
			if (i+r)%4 != 3 {
				d = vs.Int("diff"+strconv.Itoa(r)+"."+strconv.Itoa(i), -1000, 1000)
				w.Co.ReputationDiffMap[c.OnetimePseudoNym.String()] = d
			}
			want = append(want, c.Reputation+d)
		}
		w.RoundEnd()
		for i, c := range w.Cl {
			vs.Assert("feedback counted", c.Reputation == want[i])
		}
		w.Announce()
		w.CheckClients("round " + strconv.Itoa(r))
	}
}

func Sym_C34_long()  { long(6, 2) }
func Sym_C34_more()  { long(11, 1) }
func SymT_C34_most() { long(12, 3) }
