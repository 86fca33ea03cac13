//sym:dir cmd/server
package server

func SymThe() *AnonServer { return anonServer }
func SymBe(s *AnonServer) { anonServer = s }
