// Package verifsym is the harness interface. The engine interprets these functions symbolically;
// compiled natively they replay one concrete counterexample.
package verifsym

import (
	"fmt"
	"math/big"
	"os"
	"strconv"

	"zRep/verifsym/hook"
	"zRep/verifsym/shim"
)

func num(name string, lo, hi *big.Int) *big.Int {
	if v := hook.Input(name); v != nil {
		return v
	}
	if lo != nil {
		return new(big.Int).Set(lo)
	}
	return new(big.Int)
}

// Int is a machine integer in [lo,hi].
func Int(name string, lo, hi int) int {
	if lo == hi {
		return lo
	}
	return int(num(name, big.NewInt(int64(lo)), nil).Int64())
}

// Bool is an arbitrary boolean.
func Bool(name string) bool { return num(name, nil, nil).Sign() != 0 }

// Choose forks over 0..n-1.
func Choose(name string, n int) int {
	return int(num(name, nil, nil).Int64())
}

// Big is an arbitrary integer in [lo,hi] (nil: unbounded).
func Big(name string, lo, hi *big.Int) *big.Int { return num(name, lo, hi) }

// AdvBig is an integer chosen by the adversary, possibly after seeing challenges.
func AdvBig(name string, lo, hi *big.Int) *big.Int { return num(name, lo, hi) }

// Rnd is an honest random value, uniformly distributed over a large range.
func Rnd(name string, lo, hi *big.Int) *big.Int { return num(name, lo, hi) }

// Reveal discloses honest randomness to the adversary.
func Reveal(x *big.Int) {}

// RevealDraws makes the following random draws known to the adversary: its own.
func RevealDraws(on bool) {}

// RevealPast discloses all honest randomness drawn so far.
func RevealPast() {}

// FixDraws fixes the following word-sized draws, of which permutations are made.
func FixDraws(on bool) {}

// FixHash fixes the following answers of the hash function, all different.
func FixHash(on bool) {}

// LastHash is the last answer of the hash function.
func LastHash() *big.Int { return new(big.Int).SetBytes(shim.LastAnswer()) }

// Bytes is a byte string of length n with arbitrary content.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(num(name+"."+strconv.Itoa(i), nil, nil).Int64())
	}
	return b
}

// Str is a string of length n with arbitrary content.
func Str(name string, n int) string { return string(Bytes(name, n)) }

// Elem is a group element (a square modulo mod) unrelated to all others.
func Elem(name string, mod *big.Int) *big.Int {
	h := big.NewInt(7)
	for _, c := range []byte(name) {
		h.Mul(h, big.NewInt(257))
		h.Add(h, big.NewInt(int64(c)+1))
	}
	h.Exp(h, big.NewInt(65537), mod)
	return h.Exp(h, big.NewInt(2), mod)
}

// Assume restricts the explored values.
func Assume(b bool) {
	if !b {
		fmt.Println("\nVERIF-ASSUMPTION-FAILED")
		os.Exit(0)
	}
}

// Assert states the property.
func Assert(label string, b bool) {
	if !b {
		hook.Fail(label)
	}
}

// Reach marks a place that some path reaches.
func Reach(label string) { hook.Reach(label) }

// Cover demands that some values of the inputs and draws lead to Reach(label).
func Cover(label string) {}

// Possible demands that some values of the inputs and draws make b true.
func Possible(label string, b bool) {
	if b {
		hook.Reach(label)
	}
}

// Panics reports whether f panics or ends the process.
func Panics(f func()) (r bool) {
	defer func() {
		if x := recover(); x != nil {
			r = true
		}
	}()
	f()
	return false
}

// NewRun rewinds the adversary: the random oracle answers afresh from here on.
func NewRun() {}

// Rewind forgets the answer to the last hash query; the same query is answered afresh.
func Rewind() { shim.Rewind() }

// Forked assumes that the last query equals the one that was rewound, with another answer.
func Forked() { Assume(shim.Forked()) }

func Thorough() bool { return hook.Thorough() }

// Sent, SentAddr and SentData give the messages sent so far.
func Sent() int             { return len(shim.Sent) }
func SentAddr(i int) string { return shim.Sent[i].Addr }
func SentData(i int) []byte { return shim.Sent[i].Data }
func ClearSent()            { shim.Sent = nil }

// Stub replaces a function in the engine only (a contract checked elsewhere).
func Stub(name string, f interface{}) {}

// AnyMapOrder makes the engine explore every iteration order of small maps.
func AnyMapOrder(on bool) {}

// IsConcrete reports whether the engine knows x; natively every value is concrete.
func IsConcrete(x *big.Int) bool { return true }

func Trace(name string, v interface{}) {}
