//sym:dir cmd
//sym:use common/launch.go
package main

import (
	"strconv"

	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"
	vs "zRep/verifsym"
)

// count gives the messages of a kind sent since the mark, and the last one.
func count(mark, typ int) (n int, pm map[string]interface{}) {
	for ; mark < vs.Sent(); mark++ {
		if e, _ := util.DecodeEvent(vs.SentData(mark)); e.EventType == typ && vs.SentAddr(mark) == coAddr {
			n++
			pm = e.Params
		}
	}
	return
}

// commands typed at the client's prompt
func Sym_C38_typed() {
	vs.FixDraws(true)
	d := NewDeployment(1, false)
	a := d.Start()
	d.EndPosting()
	d.EndVoting()
	d.CheckClients("second round")
	for _, x := range []string{"192.0.2.1:1", "192.0.2.2:2", "192.0.2.3:3"} {
		mark := vs.Sent()
		d.Post(a, x)
		n, pm := count(mark, proto.POST_BRIDGE)
		vs.Assert("one post", n == 1 && pm["bridge_addr"].(string) == x)
	}
	for _, k := range []int{6, 7, 100, 3, 0, 5} {
		mark := vs.Sent()
		d.Get(a, k)
		n, pm := count(mark, proto.REQUEST_BRIDGES)
		if k > 5 {
			vs.Assert("no request over the reputation", n == 0)
		} else {
			vs.Assert("one request for that number", n == 1 && pm["ind"].(int) == k)
		}
	}
	vs.Assert("served", len(a.Assignments) == 3)
	d.EndPosting()
	for _, v := range []string{"1", "-1", "7", "0", "-30"} {
		for i := 0; i < 3; i++ {
			mark := vs.Sent()
			d.Type(a, "vote "+strconv.Itoa(i)+" "+v)
			n, pm := count(mark, proto.VOTE)
			want := -1
			if v == "1" || v == "7" {
				want = 1
			}
			vs.Assert("one vote of plus or minus one", n == 1 && pm["feedback"].(int) == want)
			as := bridge.DecodeAssignment(pm["assignment"].([]byte))
			vs.Assert("for that assignment", as.Addr == a.Assignments[i].Assignment.Addr)
		}
	}
}
