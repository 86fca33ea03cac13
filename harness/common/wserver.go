//sym:dir cmd/server
package server

import (
	"net"

	"zRep/util"
)

// SymNew is a server as its own start-up code makes it.
func SymNew(local, coord string) *AnonServer {
	initAnonServer()
	s := anonServer
	s.LocalAddr = symAddr(local)
	s.CoordinatorAddr = symAddr(coord)
	s.NextHop = s.CoordinatorAddr
	s.PreviousHop = s.CoordinatorAddr
	return s
}

func symAddr(s string) *net.TCPAddr {
	a, err := net.ResolveTCPAddr("tcp", s)
	util.CheckErr(err)
	return a
}

func SymRegister(s *AnonServer) { anonServer = s; serverRegister() }
