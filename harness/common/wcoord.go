//sym:dir cmd/coordinator
package coordinator

import (
	"net"

	"zRep/util"
)

// SymNew is a coordinator as its own start-up code makes it.
func SymNew(local string) *Coordinator {
	initCoordinator()
	anonCoordinator.LocalAddr = symAddr(local)
	clearBuffer()
	return anonCoordinator
}

func symAddr(s string) *net.TCPAddr {
	a, err := net.ResolveTCPAddr("tcp", s)
	util.CheckErr(err)
	return a
}

func SymConfig(c *Coordinator)      { anonCoordinator = c; configCommParams() }
func SymFake(c *Coordinator, n int) { anonCoordinator = c; addFakeClients(n) }
func SymVotePhase(c *Coordinator)   { anonCoordinator = c; vote() }
func SymRoundEnd(c *Coordinator)    { anonCoordinator = c; roundEnd() }

// SymAnnounce begins a round the way the main loop does.
func SymAnnounce(c *Coordinator) {
	anonCoordinator = c
	clearBuffer()
	c.Status = ANNOUNCE
	announce()
}
