//sym:dir cmd/client
package client

import (
	"net"

	"zRep/util"
)

// SymNew is a client as its own start-up code makes it.
func SymNew(local, coord string) *DissentClient {
	initClient()
	c := dissentClient
	c.LocalAddr = symAddr(local)
	c.CoordinatorAddr = symAddr(coord)
	return c
}

func symAddr(s string) *net.TCPAddr {
	a, err := net.ResolveTCPAddr("tcp", s)
	util.CheckErr(err)
	return a
}

func SymRegister(c *DissentClient)          { dissentClient = c; register() }
func SymPost(c *DissentClient, addr string) { dissentClient = c; postBridge(addr) }
func SymRequest(c *DissentClient, n int)    { dissentClient = c; requestBridges(n) }
func SymVote(c *DissentClient, i, f int)    { dissentClient = c; sendVote(i, f) }
