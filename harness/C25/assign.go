//sym:dir cmd
//sym:use common/world.go
package main

import (
	"strconv"

	"zRep/cmd/bridge"
	"zRep/cmd/client"
	"zRep/proto"
	"zRep/util"
	vs "zRep/verifsym"
)

// book is what should have happened so far.
type book struct {
	*World
	provider map[string]*client.DissentClient
	owner    map[string]*client.DissentClient
	posts    int
}

func newBook(clients int) *book {
	b := &book{World: NewWorld(1), provider: map[string]*client.DissentClient{}, owner: map[string]*client.DissentClient{}}
	b.Announce()
	for i := 0; i < clients; i++ {
		b.Seat()
	}
	return b
}

func (b *book) post(c *client.DissentClient) {
	b.posts++
	addr := "192.0.2.1:" + strconv.Itoa(b.posts)
	b.Post(c, addr)
	b.provider[addr] = c
}

func (b *book) request(c *client.DissentClient, n int) {
	free := len(b.provider) - len(b.owner)
	want := n
	if free < n {
		want = free
	}
	if n < 0 {
		want = 0
	}
	had := len(c.Assignments)
	from := vs.Sent()
	b.Request(c, n)
	vs.Assert("as many as requested and available", len(c.Assignments) == had+want)
	for _, info := range c.Assignments[had:] {
		a := info.Assignment
		p, ok := b.provider[a.Addr]
		vs.Assert("a posted bridge", ok)
		vs.Assert("its provider", a.Nym.Equal(p.OnetimePseudoNym))
		vs.Assert("the requester", a.NymR.Equal(c.OnetimePseudoNym))
		_, taken := b.owner[a.Addr]
		vs.Assert("not assigned before", !taken)
		b.owner[a.Addr] = c
	}
	// nothing else was offered to the servers for signing
	for i := from; i < vs.Sent(); i++ {
		e, _ := util.DecodeEvent(vs.SentData(i))
		if e.EventType == proto.SIGN_ASSIGNMENTS {
			l := bridge.DecodeAssignmentList(e.Params["assignments"].([]byte))
			vs.Assert("signed only what is delivered", len(l) == want)
		}
	}
}

func (b *book) step(name string, kinds int) {
	k := vs.Choose(name, kinds)
	a := b.Cl[0]
	o := b.Cl[len(b.Cl)-1]
	switch k {
	case 0:
		b.post(a)
	case 1:
		b.request(o, 1)
	case 2:
		b.request(o, 2)
	case 3:
		b.request(a, 1)
	case 4:
		b.post(o)
	case 5:
		b.request(a, 3)
	case 6:
		b.request(a, 0)
	case 7:
		b.request(o, -1)
	}
}

// sequences of posts and requests of two clients
func Sym_C25_sequence() {
	b := newBook(2)
	b.post(b.Cl[0])
	b.post(b.Cl[1])
	n, kinds := 3, 6
	if vs.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		b.step("step"+strconv.Itoa(i), kinds)
	}
}

// nothing, less than nothing, everything
func Sym_C25_numbers() {
	b := newBook(1)
	for i := []int{0, 1, 2, 3, 6}[vs.Choose("posted", 5)]; i > 0; i-- {
		b.post(b.Cl[0])
	}
	b.request(b.Cl[0], vs.Choose("n", 8)-2)
	b.request(b.Cl[0], vs.Choose("m", 3))
}

// whatever order the table of bridges is walked in
func Sym_C25_order() {
	b := newBook(2)
	b.post(b.Cl[0])
	b.post(b.Cl[1])
	b.post(b.Cl[0])
	vs.AnyMapOrder(true)
	b.request(b.Cl[1], 1)
	if vs.Thorough() {
		b.request(b.Cl[0], 1)
	}
	b.request(b.Cl[1], 2)
}

// bridges of an earlier round
func Sym_C25_rounds() {
	b := newBook(1)
	a := b.Cl[0]
	b.post(a)
	b.post(a)
	b.request(a, vs.Choose("n", 3))
	b.RoundEnd()
	b.Announce()
	vs.Assert("no assignments left", len(a.Assignments) == 0)
	b.provider = map[string]*client.DissentClient{}
	b.owner = map[string]*client.DissentClient{}
	if vs.Choose("new", 2) == 1 {
		b.post(a)
	}
	b.request(a, 2)
}

// posting a bridge again does not free it
func Sym_C25_again() {
	b := newBook(2)
	b.post(b.Cl[0])
	b.request(b.Cl[1], 1)
	b.Post(b.Cl[vs.Choose("by", 2)], "192.0.2.1:1")
	b.request(b.Cl[0], 1)
}

// a refused request uses up nothing
func Sym_C25_refused() {
	b := newBook(2)
	b.post(b.Cl[0])
	c := b.Cl[1]
	c.Reputation = 9 // more than committed
	b.Request(c, 7)
	vs.Assert("refused", len(c.Assignments) == 0)
	c.Reputation = bridge.StartingCredit
	b.request(b.Cl[0], 1)
}
