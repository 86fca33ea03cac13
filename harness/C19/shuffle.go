//sym:dir util/shuffle
//sym:use common/shuffle.go
package shuffle

import (
	"fmt"

	vs "zRep/verifsym"

	"github.com/dedis/crypto/abstract"
)

// outcome checks that the output is a permutation of the input, blinded as returned, and gives it.
func (in *symInput) outcome(xbar, ybar, xt, yt []abstract.Point) []int {
	k := len(in.x)
	vs.Assert("lengths", len(xbar) == k && len(ybar) == k && len(xt) == k && len(yt) == k)
	perm := []int{}
	used := map[int]bool{}
	for i := 0; i < k; i++ {
		x := in.suite.Point().Sub(xbar[i], xt[i])
		y := in.suite.Point().Sub(ybar[i], yt[i])
		at := -1
		for j := 0; j < k; j++ {
			if x.Equal(in.x[j]) && y.Equal(in.y[j]) {
				at = j
			}
		}
		vs.Assert("an input pair", at >= 0)
		vs.Assert("used once", !used[at])
		used[at] = true
		perm = append(perm, at)
		vs.Assert("same blinding in both components", in.suite.Point().Mul(xt[i], in.a).Equal(yt[i]))
		vs.Assert("blinded", !xt[i].Equal(in.suite.Point().Null()))
		for j := 0; j < i; j++ {
			vs.Assert("blinded independently", !xt[i].Equal(xt[j]))
		}
	}
	return perm
}

func perms(k int) (res [][]int) {
	if k == 0 {
		return [][]int{{}}
	}
	for _, p := range perms(k - 1) {
		for i := 0; i <= len(p); i++ {
			q := append([]int{}, p[:i]...)
			q = append(q, k-1)
			res = append(res, append(q, p[i:]...))
		}
	}
	return
}

func symShuffle(k int, std bool) {
	if k <= 3 {
		for _, p := range perms(k) {
			vs.Cover(fmt.Sprint(p))
		}
	}
	in := newInput(k, std)
	keep := append(append([]abstract.Point{}, in.x...), in.y...)
	rand := in.cipher()
	xbar, ybar, prover, xt, yt := Shuffle(in.suite, in.g, in.h, in.x, in.y, rand)
	perm := in.outcome(xbar, ybar, xt, yt)
	vs.Reach(fmt.Sprint(perm))
	prf := in.prove(prover, rand)
	vs.Assert("proof accepted", in.verify(xbar, ybar, prf))
	for i := range in.x {
		vs.Assert("input untouched", in.x[i].Equal(keep[i]) && in.y[i].Equal(keep[k+i]))
	}
}

func Sym_C19_two()   { symShuffle(2, vs.Choose("std", 2) == 1) }
func Sym_C19_three() { symShuffle(3, vs.Choose("std", 2) == 1) }
func Sym_C19_four()  { symShuffle(4, true) }
func SymT_C19_five() { symShuffle(5, false) }

// equal pairs in the list
func Sym_C19_equal() {
	in := newInput(3, true)
	in.x[2], in.y[2] = in.x[0].Add(in.x[0], in.suite.Point().Null()), in.y[0].Add(in.y[0], in.suite.Point().Null())
	rand := in.cipher()
	xbar, ybar, prover, _, _ := Shuffle(in.suite, in.g, in.h, in.x, in.y, rand)
	vs.Assert("proof accepted", in.verify(xbar, ybar, in.prove(prover, rand)))
}

// two shuffles of the same list share no blinding
func Sym_C19_fresh() {
	in := newInput(2, true)
	rand := in.cipher()
	xbar, _, _, _, _ := Shuffle(in.suite, in.g, in.h, in.x, in.y, rand)
	xbar2, _, _, _, _ := Shuffle(in.suite, in.g, in.h, in.x, in.y, in.cipher())
	for _, a := range xbar {
		for _, b := range xbar2 {
			vs.Assert("fresh", !a.Equal(b))
		}
	}
}
