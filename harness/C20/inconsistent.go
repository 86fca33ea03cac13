//sym:dir util/shuffle
//sym:use common/shuffle.go
package shuffle

import (
	"strconv"

	vs "zRep/verifsym"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/proof"
)

// hook tampers with a copy of each message of the prover before it is hashed.
func (in *symInput) hook(prover proof.Prover, f func(p *parts)) proof.Prover {
	return func(ctx proof.ProverContext) error {
		return prover(cheat{ctx, func(m interface{}) interface{} {
			switch v := m.(type) {
			case *ega1:
				p := &parts{m1: *v}
				p.m1.A, p.m1.C = append([]abstract.Point{}, v.A...), append([]abstract.Point{}, v.C...)
				p.m1.U, p.m1.W = append([]abstract.Point{}, v.U...), append([]abstract.Point{}, v.W...)
				f(p)
				return &p.m1
			case *ega3:
				p := &parts{m3: ega3{append([]abstract.Point{}, v.D...)}}
				f(p)
				return &p.m3
			case *ega5:
				p := &parts{m5: ega5{append([]abstract.Secret{}, v.Zsigma...), v.Ztau}}
				f(p)
				return &p.m5
			case ssa0:
				p := &parts{s0: ssa0{append([]abstract.Point{}, v.X...), append([]abstract.Point{}, v.Y...)}}
				f(p)
				return p.s0
			case ssa2:
				p := &parts{s2: ssa2{append([]abstract.Point{}, v.Theta...)}}
				f(p)
				return p.s2
			case ssa4:
				p := &parts{s4: ssa4{append([]abstract.Secret{}, v.Zalpha...)}}
				f(p)
				return p.s4
			}
			return m
		}})
	}
}

// a prover whose messages do not fit together: changed components enter its later challenges
func symInconsistent(k, changes int) {
	in := newInput(k, true)
	rand := in.cipher()
	xbar, ybar, prover, _, _ := Shuffle(in.suite, in.g, in.h, in.x, in.y, rand)
	l := in.gens()
	np, ns := 3+4*k+k+2*k+2*k, 1+k+2*k-1
	var which []int
	for i, last := 0, -1; i < changes; i++ {
		last += 1 + vs.Choose("component", np+ns-last-1)
		which = append(which, last)
		if last == np+ns-1 {
			break
		}
	}
	tamper := func(p *parts) {
		pt := [][]*abstract.Point{{&p.m1.Gamma, &p.m1.Lambda1, &p.m1.Lambda2}}
		for _, s := range [][]abstract.Point{p.m1.A, p.m1.C, p.m1.U, p.m1.W, p.m3.D, p.s0.X, p.s0.Y, p.s2.Theta} {
			var q []*abstract.Point
			for i := range s {
				q = append(q, &s[i])
			}
			pt = append(pt, q)
		}
		size := []int{3, k, k, k, k, k, k, k, 2 * k}
		sc := [][]*abstract.Secret{{&p.m5.Ztau}}
		for _, s := range [][]abstract.Secret{p.m5.Zsigma, p.s4.Zalpha} {
			var q []*abstract.Secret
			for i := range s {
				q = append(q, &s[i])
			}
			sc = append(sc, q)
		}
		ssize := []int{1, k, 2*k - 1}
		for _, w := range which {
			name := strconv.Itoa(w)
			for i, n := range size {
				if w >= 0 && w < n && len(pt[i]) == n && *pt[i][w] != nil {
					d := in.comb("d"+name, l)
					vs.Assume(!d.Equal(in.suite.Point().Null()))
					*pt[i][w] = in.plus(*pt[i][w], d)
				}
				w -= n
			}
			for i, n := range ssize {
				if w >= 0 && w < n && len(sc[i]) == n && *sc[i][w] != nil {
					d := vs.AdvSecret(in.suite, "d"+name)
					vs.Assume(!d.Equal(in.suite.Secret().Zero()))
					*sc[i][w] = in.suite.Secret().Add(*sc[i][w], d)
				}
				w -= n
			}
		}
	}
	prf := in.prove(in.hook(prover, tamper), rand)
	vs.Assert("inconsistent messages rejected", !in.verify(xbar, ybar, prf))
}

func Sym_C20_inconsistent_two()          { symInconsistent(2, 1) }
func Sym_C20_inconsistent_three()        { symInconsistent(3, 1) }
func Sym_C20_inconsistent_twice()        { symInconsistent(2, 2) }
func SymT_C20_inconsistent_three_twice() { symInconsistent(3, 2) }
func SymT_C20_inconsistent_four()        { symInconsistent(4, 1) }
