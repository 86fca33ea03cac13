package verifsym

import "strconv"

var (
	other  func()
	otherN int
	tag    string
)

func interrupting(on bool) {}

// Interleave runs inner at an arbitrary point of outer, or after it. The points are the statements
// of the packages named in //sym:points lines, which call Yield.
func Interleave(name string, outer, inner func()) {
	other, otherN, tag = inner, 0, name
	outer()
	if f := other; f != nil {
		other = nil
		f()
	}
}

// Yield is a place where the other goroutine may run.
func Yield() {
	if other == nil {
		return
	}
	otherN++
	if Choose(tag+strconv.Itoa(otherN), 2) == 1 {
		f := other
		other = nil
		interrupting(true)
		f()
		interrupting(false)
	}
}
