package main

// Formulas over integer polynomials, and the solver front end.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Unsup aborts a path on something the encoding does not cover.
type Unsup string

func unsup(f string, a ...any) { panic(Unsup(fmt.Sprintf(f, a...))) }

type fop int

const (
	fTrue fop = iota
	fFalse
	fEq   // p == 0
	fLe   // p <= 0
	fCong // p == 0 (mod m)
	fAnd
	fOr
	fNot
)

type Form struct {
	op   fop
	p    *Poly
	m    *big.Int
	args []*Form
	key  string
}

var (
	FT = &Form{op: fTrue}
	FF = &Form{op: fFalse}
)

func (f *Form) k() string {
	if f.key != "" {
		return f.key
	}
	switch f.op {
	case fTrue:
		f.key = "T"
	case fFalse:
		f.key = "F"
	case fEq:
		f.key = "=" + f.p.k()
	case fLe:
		f.key = "<" + f.p.k()
	case fCong:
		f.key = "%" + f.m.Text(36) + ":" + f.p.k()
	default:
		var sb strings.Builder
		sb.WriteString([]string{"&", "|", "!"}[f.op-fAnd])
		sb.WriteString("(")
		for _, a := range f.args {
			sb.WriteString(a.k())
			sb.WriteString(",")
		}
		sb.WriteString(")")
		f.key = sb.String()
	}
	return f.key
}

func mkAnd(fs ...*Form) *Form {
	var out []*Form
	seen := map[string]bool{}
	for _, f := range fs {
		switch f.op {
		case fTrue:
		case fFalse:
			return FF
		case fAnd:
			for _, a := range f.args {
				if !seen[a.k()] {
					seen[a.k()] = true
					out = append(out, a)
				}
			}
		default:
			if !seen[f.k()] {
				seen[f.k()] = true
				out = append(out, f)
			}
		}
	}
	if len(out) == 0 {
		return FT
	}
	if len(out) == 1 {
		return out[0]
	}
	return &Form{op: fAnd, args: out}
}

func mkOr(fs ...*Form) *Form {
	var out []*Form
	seen := map[string]bool{}
	for _, f := range fs {
		switch f.op {
		case fFalse:
		case fTrue:
			return FT
		case fOr:
			for _, a := range f.args {
				if !seen[a.k()] {
					seen[a.k()] = true
					out = append(out, a)
				}
			}
		default:
			if !seen[f.k()] {
				seen[f.k()] = true
				out = append(out, f)
			}
		}
	}
	if len(out) == 0 {
		return FF
	}
	if len(out) == 1 {
		return out[0]
	}
	return &Form{op: fOr, args: out}
}

func mkNot(f *Form) *Form {
	switch f.op {
	case fTrue:
		return FF
	case fFalse:
		return FT
	case fNot:
		return f.args[0]
	case fLe: // not (p <= 0)  ==  1-p <= 0
		return &Form{op: fLe, p: pint(1).sub(f.p)}
	case fAnd:
		var a []*Form
		for _, x := range f.args {
			a = append(a, mkNot(x))
		}
		return mkOr(a...)
	case fOr:
		var a []*Form
		for _, x := range f.args {
			a = append(a, mkNot(x))
		}
		return mkAnd(a...)
	}
	return &Form{op: fNot, args: []*Form{f}}
}

// interval of a polynomial from variable bounds (nil: unbounded)
func (c *Ctx) bounds(p *Poly) (lo, hi *big.Int) {
	lo, hi = new(big.Int), new(big.Int)
	for _, t := range p.t {
		vs, es := unpackMono(t.m)
		l, h := new(big.Int).Set(b1), new(big.Int).Set(b1)
		for i, v := range vs {
			x := c.vars[v]
			for e := 0; e < es[i]; e++ {
				if e == 0 && es[i] == 2 {
					// square: non-negative
					l, h = mulIv(l, h, sqLo(x.lo, x.hi), sqHi(x.lo, x.hi))
					break
				}
				l, h = mulIv(l, h, x.lo, x.hi)
			}
		}
		if t.c.Sign() < 0 {
			l, h = h, l
		}
		if lo != nil {
			if l == nil {
				lo = nil
			} else {
				lo.Add(lo, new(big.Int).Mul(l, t.c))
			}
		}
		if hi != nil {
			if h == nil {
				hi = nil
			} else {
				hi.Add(hi, new(big.Int).Mul(h, t.c))
			}
		}
	}
	return
}

func sqLo(l, h *big.Int) *big.Int {
	if l != nil && l.Sign() >= 0 {
		return new(big.Int).Mul(l, l)
	}
	if h != nil && h.Sign() <= 0 {
		return new(big.Int).Mul(h, h)
	}
	return new(big.Int)
}
func sqHi(l, h *big.Int) *big.Int {
	if l == nil || h == nil {
		return nil
	}
	a := new(big.Int).Mul(l, l)
	b := new(big.Int).Mul(h, h)
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func mulIv(l1, h1, l2, h2 *big.Int) (*big.Int, *big.Int) {
	if l1 == nil && h1 == nil || l2 == nil && h2 == nil {
		return nil, nil
	}
	if l1 == nil || h1 == nil || l2 == nil || h2 == nil {
		// non-negative half lines only
		if l1 != nil && l1.Sign() >= 0 && l2 != nil && l2.Sign() >= 0 {
			return new(big.Int).Mul(l1, l2), nil
		}
		return nil, nil
	}
	ps := []*big.Int{new(big.Int).Mul(l1, l2), new(big.Int).Mul(l1, h2), new(big.Int).Mul(h1, l2), new(big.Int).Mul(h1, h2)}
	l, h := ps[0], ps[0]
	for _, x := range ps[1:] {
		if x.Cmp(l) < 0 {
			l = x
		}
		if x.Cmp(h) > 0 {
			h = x
		}
	}
	return l, h
}

func (p *Poly) coefGcd() *big.Int {
	g := new(big.Int)
	for _, t := range p.t {
		if t.m == "" {
			continue
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(t.c))
		if g.Cmp(b1) == 0 {
			break
		}
	}
	return g
}

func (p *Poly) constTerm() *big.Int {
	if len(p.t) > 0 && p.t[0].m == "" {
		return p.t[0].c
	}
	return b0
}

func (p *Poly) divConst(g *big.Int) *Poly {
	r := &Poly{t: make([]term, len(p.t))}
	for i, t := range p.t {
		r.t[i] = term{new(big.Int).Quo(t.c, g), t.m}
	}
	return r
}

func (c *Ctx) mkEq(p *Poly) *Form {
	if x := p.cst(); x != nil {
		if x.Sign() == 0 {
			return FT
		}
		return FF
	}
	g := p.coefGcd()
	if g.Cmp(b1) > 0 {
		if new(big.Int).Mod(p.constTerm(), g).Sign() != 0 {
			return FF
		}
		p = p.divConst(g)
	}
	if p.t[len(p.t)-1].c.Sign() < 0 {
		p = p.neg()
	}
	lo, hi := c.bounds(p)
	if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
		return FF
	}
	return &Form{op: fEq, p: p}
}

func (c *Ctx) mkLe(p *Poly) *Form { // p <= 0
	if x := p.cst(); x != nil {
		if x.Sign() <= 0 {
			return FT
		}
		return FF
	}
	lo, hi := c.bounds(p)
	if hi != nil && hi.Sign() <= 0 {
		return FT
	}
	if lo != nil && lo.Sign() > 0 {
		return FF
	}
	g := p.coefGcd()
	if g.Cmp(b1) > 0 {
		// sum <= -c  ->  sum/g <= floor(-c/g)
		ct := new(big.Int).Neg(p.constTerm())
		q := new(big.Int)
		q.Div(ct, g) // floor for positive g
		r := p.sub(pconst(p.constTerm())).divConst(g)
		p = r.sub(pconst(q))
	}
	return &Form{op: fLe, p: p}
}

func (c *Ctx) mkLt(p *Poly) *Form { return c.mkLe(p.add(pint(1))) } // p < 0

func symMod(x, m *big.Int) *big.Int {
	r := new(big.Int).Mod(x, m)
	h := new(big.Int).Rsh(m, 1)
	if r.Cmp(h) > 0 {
		r.Sub(r, m)
	}
	return r
}

func (p *Poly) symCoef(m *big.Int) *Poly {
	r := &Poly{}
	for _, t := range p.t {
		x := symMod(t.c, m)
		if x.Sign() != 0 {
			r.t = append(r.t, term{x, t.m})
		}
	}
	return r
}

// embed replaces mod-M variables by their definition where m | M.
func (c *Ctx) embed(p *Poly, m *big.Int) *Poly {
	for n := 0; ; n++ {
		set := map[int]bool{}
		p.vars(set)
		best := -1
		for v := range set {
			x := c.vars[v]
			if x.modP != nil && new(big.Int).Mod(x.modM, m).Sign() == 0 && v > best {
				best = v
			}
		}
		if best < 0 {
			return p.symCoef(m)
		}
		if n > 100000 {
			unsup("embed loop")
		}
		p = p.subst(best, c.vars[best].modP).symCoef(m)
	}
}

// clearInv multiplies out inverse variables modulo m.
func (c *Ctx) clearInv(p *Poly, m *big.Int) *Poly {
	for n := 0; n < 200; n++ {
		set := map[int]bool{}
		p.vars(set)
		best := -1
		for v := range set {
			x := c.vars[v]
			if x.invP != nil && x.invM.Cmp(m) == 0 && v > best {
				best = v
			}
		}
		if best < 0 {
			return p
		}
		d := p.degIn(best)
		// p = sum a_i w^i ; multiply by P^d: sum a_i P^(d-i)
		P := c.embed(c.vars[best].invP, m)
		parts := make([]*Poly, d+1)
		for i := range parts {
			parts[i] = &Poly{}
		}
		for _, t := range p.t {
			e := monoExp(t.m, best)
			parts[e] = parts[e].add(&Poly{t: []term{{t.c, monoWithout(t.m, best)}}})
		}
		r := &Poly{}
		for i := 0; i <= d; i++ {
			r = r.add(parts[i].mul(P.pow(d - i)))
		}
		p = c.embed(r, m)
	}
	unsup("inverse clearing did not end")
	return nil
}

func (c *Ctx) mkCong(p *Poly, m *big.Int) *Form {
	if m.Cmp(b1) == 0 {
		return FT
	}
	p = c.embed(p, m)
	p = c.clearInv(p, m)
	if x := p.cst(); x != nil {
		if new(big.Int).Mod(x, m).Sign() == 0 {
			return FT
		}
		return FF
	}
	lo, hi := c.bounds(p)
	if lo != nil && hi != nil && new(big.Int).Neg(m).Cmp(lo) < 0 && hi.Cmp(m) < 0 {
		return c.mkEq(p)
	}
	// canonical sign / scale
	if c.isPrime(m) {
		lead := p.t[len(p.t)-1].c
		if lead.CmpAbs(b1) != 0 || lead.Sign() < 0 {
			inv := new(big.Int).ModInverse(new(big.Int).Mod(lead, m), m)
			q := p.scale(inv).symCoef(m)
			p = q
		}
	} else if p.t[len(p.t)-1].c.Sign() < 0 {
		p = p.neg()
	}
	return &Form{op: fCong, p: p, m: m}
}

// ---------------------------------------------------------------- rewriting under a substitution

func (c *Ctx) fsubst(f *Form, v int, q *Poly) *Form {
	switch f.op {
	case fEq:
		if n := f.p.subst(v, q); n != f.p {
			return c.mkEq(n)
		}
	case fLe:
		if n := f.p.subst(v, q); n != f.p {
			return c.mkLe(n)
		}
	case fCong:
		if n := f.p.subst(v, q); n != f.p {
			return c.mkCong(n, f.m)
		}
	case fAnd, fOr, fNot:
		ch := false
		a := make([]*Form, len(f.args))
		for i, x := range f.args {
			a[i] = c.fsubst(x, v, q)
			if a[i] != x {
				ch = true
			}
		}
		if !ch {
			return f
		}
		switch f.op {
		case fAnd:
			return mkAnd(a...)
		case fOr:
			return mkOr(a...)
		}
		return mkNot(a[0])
	}
	return f
}

func (f *Form) vars(set map[int]bool) {
	if f.p != nil {
		f.p.vars(set)
	}
	for _, a := range f.args {
		a.vars(set)
	}
}

// eval under a full assignment
func (f *Form) eval(val func(int) *big.Int) (bool, bool) {
	switch f.op {
	case fTrue:
		return true, true
	case fFalse:
		return false, true
	case fEq, fLe, fCong:
		x := f.p.eval(val)
		if x == nil {
			return false, false
		}
		switch f.op {
		case fEq:
			return x.Sign() == 0, true
		case fLe:
			return x.Sign() <= 0, true
		}
		return new(big.Int).Mod(x, f.m).Sign() == 0, true
	case fNot:
		b, ok := f.args[0].eval(val)
		return !b, ok
	case fAnd:
		for _, a := range f.args {
			b, ok := a.eval(val)
			if !ok {
				return false, false
			}
			if !b {
				return false, true
			}
		}
		return true, true
	case fOr:
		for _, a := range f.args {
			b, ok := a.eval(val)
			if !ok {
				return false, false
			}
			if b {
				return true, true
			}
		}
		return false, true
	}
	panic("eval")
}

// ---------------------------------------------------------------- Schwartz-Zippel on honest randomness

var b64 = new(big.Int).Lsh(b1, 64)

func (v *Var) wide() bool {
	if v.lo == nil || v.hi == nil {
		return true
	}
	return new(big.Int).Sub(v.hi, v.lo).Cmp(b64) >= 0
}

// dependsOn: does derived variable v mention x in its definition (transitively)?
func (c *Ctx) dependsOn(v, x int) bool {
	if v == x {
		return true
	}
	if v < x {
		// definitions only refer to earlier variables, except quotients created along with a remainder
	}
	d := c.depsOf(v)
	return d[x]
}

func (c *Ctx) depsOf(v int) map[int]bool {
	if d, ok := c.depCache[v]; ok {
		return d
	}
	d := map[int]bool{}
	c.depCache[v] = d
	x := c.vars[v]
	for _, p := range []*Poly{x.modP, x.quoP, x.invP, x.sqrtP} {
		if p == nil {
			continue
		}
		s := map[int]bool{}
		p.vars(s)
		for y := range s {
			d[y] = true
			for z := range c.depsOf(y) {
				d[z] = true
			}
		}
	}
	return d
}

// generic reports whether x behaves as an unpredictable value inside polynomial p (modulo m, or over Z when m is nil).
func (c *Ctx) generic(x int, set map[int]bool) bool {
	v := c.vars[x]
	if !v.rnd || !v.wide() {
		return false
	}
	for y := range set {
		if y == x {
			continue
		}
		w := c.vars[y]
		if w.derived() {
			if c.dependsOn(y, x) {
				return false
			}
			// an adversarial variable hidden in a definition counts too
			for z := range c.depsOf(y) {
				if c.mayFollow(x, z) {
					return false
				}
			}
			continue
		}
		if c.mayFollow(x, y) {
			return false
		}
	}
	return true
}

// mayFollow: may the adversary have chosen variable y after seeing random variable x?
func (c *Ctx) mayFollow(x, y int) bool {
	v, w := c.vars[x], c.vars[y]
	return w.adv && (v.digest && !c.pinned(x, y) || v.revealed && w.id > v.id)
}

// pinned: is adversarial variable y fixed by the transcript that produced digest x?
func (c *Ctx) pinned(x, y int) bool {
	return c.pins[x] != nil && c.pins[x][y]
}

// szSplit rewrites p=0 (mod m) into the conjunction of its coefficients in generic variables.
func (c *Ctx) szSplit(p *Poly, m *big.Int) (*Form, bool) {
	if m != nil && (m.BitLen() < 64 || !c.isPrime(m)) {
		return nil, false
	}
	set := map[int]bool{}
	p.vars(set)
	gen := map[int]bool{}
	for x := range set {
		if c.generic(x, set) {
			gen[x] = true
		}
	}
	if len(gen) == 0 {
		// a lone derived residue of generic data never hits a fixed value
		return c.szResidue(p, m, set)
	}
	groups := map[string]*Poly{}
	var keys []string
	for _, t := range p.t {
		vs, es := unpackMono(t.m)
		var gv, ge, rv, re []int
		for i, v := range vs {
			if gen[v] {
				gv = append(gv, v)
				ge = append(ge, es[i])
			} else {
				rv = append(rv, v)
				re = append(re, es[i])
			}
		}
		k := packMono(gv, ge)
		if groups[k] == nil {
			groups[k] = &Poly{}
			keys = append(keys, k)
		}
		groups[k] = groups[k].add(&Poly{t: []term{{t.c, packMono(rv, re)}}})
	}
	sort.Strings(keys)
	var fs []*Form
	for _, k := range keys {
		if m == nil {
			fs = append(fs, c.mkEq(groups[k]))
		} else {
			fs = append(fs, c.mkCong(groups[k], m))
		}
	}
	c.szUsed++
	return mkAnd(fs...), true
}

// szResidue: v = (linear in generic x) mod M with large M: equations a*v + const = 0 cannot hold.
func (c *Ctx) szResidue(p *Poly, m *big.Int, set map[int]bool) (*Form, bool) {
	cand := -1
	for y := range set {
		w := c.vars[y]
		if w.modP == nil || w.modM.BitLen() < 64 {
			continue
		}
		s := map[int]bool{}
		w.modP.vars(s)
		for x := range s {
			if c.vars[x].rnd && c.vars[x].wide() && w.modP.degIn(x) >= 1 && c.generic(x, s) {
				// no other variable of p may depend on x
				ok := true
				for z := range set {
					if z != y && c.dependsOn(z, x) {
						ok = false
					}
					if z == y {
						continue
					}
					if c.mayFollow(x, z) {
						ok = false
					}
					if c.vars[z].derived() {
						for d := range c.depsOf(z) {
							if c.mayFollow(x, d) {
								ok = false
							}
						}
					}
				}
				if ok && p.degIn(y) >= 1 {
					cand = y
				}
			}
		}
	}
	if cand < 0 {
		return nil, false
	}
	parts := map[int]*Poly{}
	for _, t := range p.t {
		e := monoExp(t.m, cand)
		if parts[e] == nil {
			parts[e] = &Poly{}
		}
		parts[e] = parts[e].add(&Poly{t: []term{{t.c, monoWithout(t.m, cand)}}})
	}
	var fs []*Form
	for e := 0; e < 64; e++ {
		if q := parts[e]; q != nil {
			if m == nil {
				fs = append(fs, c.mkEq(q))
			} else {
				fs = append(fs, c.mkCong(q, m))
			}
		}
	}
	c.szUsed++
	return mkAnd(fs...), true
}

// norm applies the genericity rule to literals.
func (c *Ctx) norm(f *Form) *Form {
	switch f.op {
	case fEq, fCong:
		if g, ok := c.szSplit(f.p, f.m); ok {
			return c.norm(g)
		}
		return f
	case fNot:
		return mkNot(c.norm(f.args[0]))
	case fAnd:
		a := make([]*Form, len(f.args))
		for i, x := range f.args {
			a[i] = c.norm(x)
		}
		return mkAnd(a...)
	case fOr:
		a := make([]*Form, len(f.args))
		for i, x := range f.args {
			a[i] = c.norm(x)
		}
		return mkOr(a...)
	}
	return f
}

func (c *Ctx) isPrime(m *big.Int) bool {
	k := m.Text(36)
	if v, ok := primeCache.Load(k); ok {
		return v.(bool)
	}
	r := m.ProbablyPrime(24)
	primeCache.Store(k, r)
	return r
}

// fstr renders a formula for people.
func (c *Ctx) fstr(f *Form) string {
	switch f.op {
	case fTrue:
		return "true"
	case fFalse:
		return "false"
	case fEq:
		return c.pstr(f.p) + " = 0"
	case fLe:
		return c.pstr(f.p) + " <= 0"
	case fCong:
		return c.pstr(f.p) + " = 0 (mod " + shortInt(f.m) + ")"
	case fNot:
		return "not(" + c.fstr(f.args[0]) + ")"
	}
	var s []string
	for _, a := range f.args {
		s = append(s, c.fstr(a))
	}
	return "(" + strings.Join(s, map[fop]string{fAnd: " and ", fOr: " or "}[f.op]) + ")"
}

func shortInt(x *big.Int) string {
	s := x.String()
	if len(s) > 16 {
		return fmt.Sprintf("<%d-bit>", x.BitLen())
	}
	return s
}
