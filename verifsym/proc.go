package verifsym

import "zRep/verifsym/shim"

// Files says whether the programs find the repository's configuration files.
func Files(on bool) { shim.Files = on }

// Spawn runs f as a process of its own until it waits for a connection, a line of input or time to pass.
func Spawn(f func()) int { return shim.Spawn(f) }

// Where says what a process waits for: "sleep", "stdin", "accept"; or "done".
func Where(p int) string { return shim.Where(p) }

// Resume lets a process go on that sleeps or waits for a line of input.
func Resume(p int, line string) { shim.Resume(p, line) }

// Listeners, ListenAddr and Accepting describe the sockets that were opened.
func Listeners() int          { return len(shim.Listeners) }
func ListenAddr(i int) string { return shim.Listeners[i].Addr().String() }
func Accepting(i int) bool    { return shim.Listeners[i].Accepting() }

// Feed hands a message to the process that waits at a socket, until it waits again.
func Feed(i int, data []byte) { shim.Listeners[i].Feed(data) }
