package main

import (
	"math/big"
	"strconv"
)

// Equivalence-preserving reductions tried on a query that is otherwise undecided: an equation over a
// remainder implies the congruence of its dividend, and a congruence modulo a prime lets one of its
// variables be replaced in the other congruences modulo the same prime (the congruence itself is kept).

func (p *prob) congModuli() []*big.Int {
	seen := map[string]*big.Int{}
	var walk func(f *Form)
	walk = func(f *Form) {
		if f.op == fCong && p.c.isPrime(f.m) {
			seen[f.m.Text(36)] = f.m
		}
		for _, a := range f.args {
			walk(a)
		}
	}
	for _, f := range p.lits {
		walk(f)
	}
	var out []*big.Int
	for _, k := range sortedKeys(seen) {
		out = append(out, seen[k])
	}
	return out
}

func (p *prob) reduce() bool {
	c := p.c
	if p.implied == nil {
		p.implied, p.pivots = map[string]bool{}, map[string]bool{}
	}
	mods := p.congModuli()
	changed := false
	for _, f := range append([]*Form(nil), p.lits...) {
		if f.op != fEq {
			continue
		}
		for _, m := range mods {
			key := f.k() + "|" + m.Text(36)
			if p.implied[key] {
				continue
			}
			p.implied[key] = true
			q := f.p
			hit := false
			for n := 0; n < 20; n++ {
				set := map[int]bool{}
				q.vars(set)
				best := -1
				for v := range set {
					x := c.vars[v]
					if x.modP != nil && new(big.Int).Mod(x.modM, m).Sign() == 0 && v > best {
						best = v
					}
				}
				if best < 0 {
					break
				}
				q = q.subst(best, c.vars[best].modP)
				hit = true
			}
			if !hit {
				continue
			}
			if g := c.norm(c.applySubs(p, c.mkCong(q, m))); g.op != fTrue {
				p.lits = append(p.lits, g)
				changed = true
			}
		}
	}
	for _, m := range mods {
		mk := m.Text(36)
		for li := 0; li < len(p.lits); li++ {
			f := p.lits[li]
			if f.op != fCong || f.m.Cmp(m) != 0 || p.pivots[mk+"|"+f.k()] {
				continue
			}
			best, score := -1, 0
			var coef *big.Int
			for _, t := range f.p.t {
				if len(t.m) != 6 || t.m[4] != 0 || t.m[5] != 1 {
					continue
				}
				vs, _ := unpackMono(t.m)
				v := vs[0]
				x := c.vars[v]
				if x.derived() || countIn(f.p, v) != 1 || p.pivots[mk+"#"+x.name+"#"+strconv.Itoa(v)] {
					continue
				}
				s := v
				if x.adv {
					s += 1 << 20
				}
				if best < 0 || s > score {
					best, score, coef = v, s, t.c
				}
			}
			if best < 0 {
				continue
			}
			x := c.vars[best]
			inv := new(big.Int).ModInverse(new(big.Int).Mod(coef, m), m)
			e := f.p.sub(pvar(x).scale(coef)).scale(new(big.Int).Neg(inv)).symCoef(m)
			p.pivots[mk+"|"+f.k()] = true
			p.pivots[mk+"#"+x.name+"#"+strconv.Itoa(best)] = true
			var rw func(g *Form) *Form
			rw = func(g *Form) *Form {
				switch g.op {
				case fCong:
					if g.m.Cmp(m) == 0 && countIn(g.p, best) > 0 {
						changed = true
						return c.norm(c.mkCong(g.p.subst(best, e), m))
					}
					return g
				case fNot:
					return mkNot(rw(g.args[0]))
				case fAnd, fOr:
					var as []*Form
					for _, a := range g.args {
						as = append(as, rw(a))
					}
					if g.op == fAnd {
						return mkAnd(as...)
					}
					return mkOr(as...)
				}
				return g
			}
			for i := range p.lits {
				if i != li {
					p.lits[i] = rw(p.lits[i])
				}
			}
		}
	}
	return changed
}

func (p *prob) hasMod(q *Poly) bool {
	set := map[int]bool{}
	q.vars(set)
	for v := range set {
		if p.c.vars[v].modP != nil {
			return true
		}
	}
	return false
}
