package main

// Path context: decisions, path condition, derived variables, random oracle.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"
)

type Options struct {
	dumpDir   string
	seed      int64
	thorough  bool
	qTimeout  int // ms per feasibility query
	aTimeout  int // ms per assertion query
	maxPaths  int
	deadline  time.Time
	workers   int
	verbose   bool
	maxSteps  int
	traceFunc bool
}

type Worker struct {
	id     int
	solver *Solver
}

type pathEnd struct{ why string } // infeasible path

type drawRec struct {
	kind string
	p    *Poly
	g    *Grp
}

type inputRec struct {
	name string
	kind string
	v    *BigVal
}

type digestRec struct {
	alg  string
	data []V
	key  string
	v    *Poly
	run  int
}

type callFrame struct{ fn string }

type Ctx struct {
	it  *Interp
	opt *Options
	w   *Worker
	P   *Program
	ex  *Explorer

	vars     []*Var
	depCache map[int]map[int]bool
	pins     map[int]map[int]bool
	szUsed   int
	primes   map[string]*big.Int
	atomKey  map[string]*Atom
	atoms    []*Atom
	toks     map[string]*Tok
	modCache map[string]*Poly

	pc        []*Form
	prefix    []int
	trace     []int
	notes     map[string]bool
	draws     []drawRec
	inputs    []inputRec
	digests   []digestRec
	run       int
	forgot    *digestRec
	forgotAt  int
	sent      []V
	reached   map[string]bool
	revealNew bool // draws belong to the adversary
	fixDraws  bool // word-sized draws are fixed (bounded harnesses only)
	fixSeed   uint64

	fixHash      bool // answers of the random oracle are fixed
	lastHash     *Poly
	interrupting bool // in code that runs in the middle of something else
	chosen       []string
	mapOrd       bool
	stubs        map[string]V
	steps        int
	viol         []*Violation
	logs         []string
	dists        []*Poly
	nonres       map[string]bool
	seq          []seqRec // every draw and digest in program order
	rtypes       map[string]*NativeObj
	gobReg       map[string]bool
	partVars     map[string]*Var
	embeds       map[string][]V // data embedded in a picked point
	exits        bool
	nowrap       bool
	files        bool // os.Open finds the files of the repository
	procs        []*proc
	listeners    []*lstObj
	sentRecs     []sentRec
	cmds         int
	badCmd       bool
	harness      string
}

// seqRec is one value taken from a random source or hash, as replayed natively.
type seqRec struct {
	kind string
	p    *Poly
}

func newCtx(ex *Explorer, w *Worker, prefix []int) *Ctx {
	c := &Ctx{opt: ex.opt, w: w, P: ex.P, ex: ex, prefix: prefix,
		depCache: map[int]map[int]bool{}, pins: map[int]map[int]bool{}, primes: map[string]*big.Int{},
		atomKey: map[string]*Atom{}, toks: map[string]*Tok{}, modCache: map[string]*Poly{},
		notes: map[string]bool{}, reached: map[string]bool{}, stubs: map[string]V{},
		nonres: map[string]bool{}, rtypes: map[string]*NativeObj{}, gobReg: map[string]bool{}, embeds: map[string][]V{}, partVars: map[string]*Var{}}
	return c
}

func (c *Ctx) note(s string) { c.notes[s] = true }
func (c *Ctx) expired() bool { return time.Now().After(c.opt.deadline) }
func (c *Ctx) usePrime(m *big.Int) {
	k := m.Text(36)
	if _, ok := c.primes[k]; !ok && m.BitLen() >= 64 && c.isPrime(m) {
		c.primes[k] = m
	}
}

func (c *Ctx) newVar(name string, lo, hi *big.Int) *Var {
	v := &Var{id: len(c.vars), name: name, lo: lo, hi: hi}
	c.vars = append(c.vars, v)
	return v
}

// modOf returns p mod m (Euclidean) as a polynomial.
func (c *Ctx) modOf(p *Poly, m *big.Int) *Poly {
	if x := p.cst(); x != nil {
		return pconst(new(big.Int).Mod(x, m))
	}
	lo, hi := c.bounds(p)
	if lo != nil && hi != nil {
		a, b := new(big.Int), new(big.Int)
		a.Div(lo, m)
		b.Div(hi, m)
		if a.Cmp(b) == 0 {
			return p.sub(pconst(new(big.Int).Mul(a, m)))
		}
	}
	q := c.tryEmbed(p, m)
	if q == nil {
		r := c.opaque("rem", bigP(p), new(big.Int), new(big.Int).Sub(m, b1), m)
		c.note("a product of very long expressions is treated as an arbitrary value")
		return r
	}
	if x := q.cst(); x != nil {
		return pconst(new(big.Int).Mod(x, m))
	}
	if j := byteShift(m); j > 0 {
		if lo, hi := c.bounds(q); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(m) < 0 {
			return q
		}
		if v := c.digitVar(q, hi); v != nil && j > 1 {
			r := &Poly{}
			w := b1
			for x := q; j > 0; j-- {
				r = r.add(c.modOf2(x, b256).scale(w))
				x = c.divOf2(x, b256)
				w = new(big.Int).Mul(w, b256)
			}
			return r
		}
	}
	return c.modOf2(p, m)
}

// tryEmbed is nil where writing out the value would be too long.
func (c *Ctx) tryEmbed(p *Poly, m *big.Int) (q *Poly) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Unsup); !ok || u != tooLarge {
				panic(r)
			}
			q = nil
		}
	}()
	return c.embed(p, m)
}

var b256 = big.NewInt(256)

// byteShift is j for m = 256^j, j up to 8, and 0 otherwise.
func byteShift(m *big.Int) int {
	n := m.BitLen() - 1
	if n <= 0 || n%8 != 0 || n > 64 || m.TrailingZeroBits() != uint(n) {
		return 0
	}
	return n / 8
}

// digitVar: p is a single variable of at most 64 bits, to be taken apart byte by byte.
func (c *Ctx) digitVar(p *Poly, _ *big.Int) *Var {
	if len(p.t) != 1 || p.t[0].c.Cmp(b1) != 0 {
		return nil
	}
	vs, es := unpackMono(p.t[0].m)
	if len(vs) != 1 || es[0] != 1 {
		return nil
	}
	v := c.vars[vs[0]]
	if v.lo == nil || v.hi == nil || v.lo.BitLen() > 64 || v.hi.BitLen() > 64 {
		return nil
	}
	return v
}

func (c *Ctx) modOf2(p *Poly, m *big.Int) *Poly {
	if x := p.cst(); x != nil {
		return pconst(new(big.Int).Mod(x, m))
	}
	lo, hi := c.bounds(p)
	if lo != nil && hi != nil {
		a, b := new(big.Int), new(big.Int)
		a.Div(lo, m)
		b.Div(hi, m)
		if a.Cmp(b) == 0 {
			return p.sub(pconst(new(big.Int).Mul(a, m)))
		}
	}
	q := c.embed(p, m)
	if x := q.cst(); x != nil {
		return pconst(new(big.Int).Mod(x, m))
	}
	// canonical definition: coefficients reduced
	key := "m" + m.Text(36) + q.k()
	if r, ok := c.modCache[key]; ok {
		return r
	}
	// a single earlier residue of the same modulus
	c.usePrime(m)
	v := c.newVar("", new(big.Int), new(big.Int).Sub(m, b1))
	v.modP, v.modM = q, m
	lo, hi = c.bounds(q)
	var ql, qh *big.Int
	if lo != nil {
		ql = new(big.Int).Div(lo, m)
	}
	if hi != nil {
		qh = new(big.Int).Div(hi, m)
	}
	k := c.newVar("", ql, qh)
	k.quoP, k.quoM, k.rem = q, m, v
	v.quo = k
	v.name = "(" + clip(c.pstr(q)) + ")mod"
	k.name = "(" + clip(c.pstr(q)) + ")div"
	r := pvar(v)
	c.modCache[key] = r
	if dk := "d" + m.Text(36) + q.k(); c.modCache[dk] == nil {
		c.modCache[dk] = pvar(k)
	}
	return r
}

// divOf returns floor(p / m) for m > 0.
func (c *Ctx) divOf(p *Poly, m *big.Int) *Poly {
	if x := p.cst(); x != nil {
		return pconst(new(big.Int).Div(x, m))
	}
	if m.Cmp(b1) == 0 {
		return p
	}
	lo, hi := c.bounds(p)
	if lo != nil && hi != nil {
		a, b := new(big.Int).Div(lo, m), new(big.Int).Div(hi, m)
		if a.Cmp(b) == 0 {
			return pconst(a)
		}
	}
	// separate the part divisible by m
	whole, rest := &Poly{}, &Poly{}
	for _, t := range p.t {
		q, r := new(big.Int).DivMod(t.c, m, new(big.Int))
		if q.Sign() != 0 {
			whole = whole.add(&Poly{t: []term{{q, t.m}}})
		}
		if r.Sign() != 0 {
			rest = rest.add(&Poly{t: []term{{r, t.m}}})
		}
	}
	if rest.isZero() {
		return whole
	}
	lo, hi = c.bounds(rest)
	if lo != nil && hi != nil {
		a, b := new(big.Int).Div(lo, m), new(big.Int).Div(hi, m)
		if a.Cmp(b) == 0 {
			return whole.add(pconst(a))
		}
	}
	if j := byteShift(m); j > 1 && whole.isZero() && c.digitVar(rest, hi) != nil {
		for ; j > 0; j-- {
			rest = c.divOf2(rest, b256)
		}
		return rest
	}
	return whole.add(c.divOf2(rest, m))
}

func (c *Ctx) divOf2(rest *Poly, m *big.Int) *Poly {
	if x := rest.cst(); x != nil {
		return pconst(new(big.Int).Div(x, m))
	}
	lo, hi := c.bounds(rest)
	if lo != nil && hi != nil {
		a, b := new(big.Int).Div(lo, m), new(big.Int).Div(hi, m)
		if a.Cmp(b) == 0 {
			return pconst(a)
		}
	}
	key := "d" + m.Text(36) + rest.k()
	if r, ok := c.modCache[key]; ok {
		return r
	}
	v := c.newVar("", new(big.Int), new(big.Int).Sub(m, b1))
	v.modP, v.modM = rest, m
	var ql, qh *big.Int
	if lo != nil {
		ql = new(big.Int).Div(lo, m)
	}
	if hi != nil {
		qh = new(big.Int).Div(hi, m)
	}
	k := c.newVar("("+clip(c.pstr(rest))+")div", ql, qh)
	v.name = "(" + clip(c.pstr(rest)) + ")mod"
	k.quoP, k.quoM, k.rem = rest, m, v
	v.quo = k
	r := pvar(k)
	c.modCache[key] = r
	if q := c.embed(rest, m); q.k() == rest.k() {
		if mk := "m" + m.Text(36) + q.k(); c.modCache[mk] == nil {
			c.modCache[mk] = pvar(v)
		}
	}
	return r
}

// invOf returns a variable w with w*p = 1 (mod m), p known to be non-zero modulo the prime m.
func (c *Ctx) invOf(p *Poly, m *big.Int) *Poly {
	p = c.embed(p, m)
	if x := p.cst(); x != nil {
		return pconst(new(big.Int).ModInverse(new(big.Int).Mod(x, m), m))
	}
	if len(p.t) == 1 && p.t[0].c.Cmp(b1) == 0 {
		vs, es := unpackMono(p.t[0].m)
		if len(vs) == 1 && es[0] == 1 {
			if w := c.vars[vs[0]]; w.invP != nil && w.invM.Cmp(m) == 0 {
				return c.modOf(w.invP, m)
			}
		}
	}
	key := "i" + m.Text(36) + p.k()
	if r, ok := c.modCache[key]; ok {
		return r
	}
	c.usePrime(m)
	v := c.newVar("1/("+clip(c.pstr(p))+")", new(big.Int).Set(b1), new(big.Int).Sub(m, b1))
	v.invP, v.invM = p, m
	r := pvar(v)
	c.modCache[key] = r
	return r
}

// sqrtOf returns the integer square root of p >= 0.
func (c *Ctx) sqrtOf(p *Poly) *Poly {
	if x := p.cst(); x != nil {
		return pconst(new(big.Int).Sqrt(x))
	}
	key := "r" + p.k()
	if r, ok := c.modCache[key]; ok {
		return r
	}
	_, hi := c.bounds(p)
	var h *big.Int
	if hi != nil {
		h = new(big.Int).Sqrt(hi)
	}
	v := c.newVar("sqrt("+clip(c.pstr(p))+")", new(big.Int), h)
	v.sqrtP = p
	r := pvar(v)
	c.modCache[key] = r
	c.pc = append(c.pc, mkAnd(c.mkLe(r.mul(r).sub(p)), c.mkLt(p.sub(r.add(pint(1)).mul(r.add(pint(1)))))))
	return r
}

func clip(s string) string {
	if len(s) > 60 {
		return s[:57] + "..."
	}
	return s
}

// ---------------------------------------------------------------- decisions

// slice keeps the path literals connected to f through shared variables.
func (c *Ctx) slice(f *Form) []*Form {
	type node struct {
		f  *Form
		vs map[int]bool
	}
	closure := func(f *Form) map[int]bool {
		s := map[int]bool{}
		f.vars(s)
		o := map[int]bool{}
		for v := range s {
			o[v] = true
			for d := range c.depsOf(v) {
				o[d] = true
			}
			if x := c.vars[v]; x.quo != nil {
				o[x.quo.id] = true
			} else if x.rem != nil {
				o[x.rem.id] = true
			}
		}
		return o
	}
	need := closure(f)
	rest := make([]node, 0, len(c.pc))
	for _, g := range c.pc {
		rest = append(rest, node{g, closure(g)})
	}
	used := make([]bool, len(rest))
	for ch := true; ch; {
		ch = false
		for i, n := range rest {
			if used[i] {
				continue
			}
			hit := false
			for v := range n.vs {
				if need[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				for v := range n.vs {
					need[v] = true
				}
			}
		}
	}
	var out []*Form
	for i, n := range rest {
		if used[i] {
			out = append(out, n.f)
		}
	}
	return out
}

func (c *Ctx) feasible(f *Form) Res {
	if f == FT {
		return Sat
	}
	if f == FF {
		return Unsat
	}
	lits := append(c.slice(f), f)
	r, _ := c.sat(lits, false, c.opt.qTimeout)
	return r
}

// where tells the innermost functions being executed.
func (c *Ctx) where() string {
	if c.it == nil || c.it.top == nil {
		return "?"
	}
	return c.it.stackStr(4)
}

// decide branches on a formula.
func (c *Ctx) decide(f *Form) bool {
	f = c.norm(f)
	switch f.op {
	case fTrue:
		return true
	case fFalse:
		return false
	}
	for _, g := range c.pc {
		if g.k() == f.k() {
			return true
		}
	}
	nf := mkNot(f)
	for _, g := range c.pc {
		if g.k() == nf.k() {
			return false
		}
	}
	n := len(c.trace)
	var v int
	if n < len(c.prefix) {
		v = c.prefix[n]
	} else {
		rt := c.feasible(f)
		if rt == Unsat {
			v = 3 // forced false
		} else {
			rf := c.feasible(nf)
			switch {
			case rf == Unsat:
				v = 2 // forced true
			default:
				if rt == Unknown || rf == Unknown {
					c.note("a branch condition stayed undecided; both sides explored")
				}
				alt := append(append([]int(nil), c.trace...), 0)
				c.ex.push(alt)
				v = 1
				if c.opt.verbose {
					fmt.Printf("  FORK %s %s\n", c.where(), clipN(c.fstr(f), 150))
				}
			}
		}
	}
	c.trace = append(c.trace, v)
	switch v {
	case 1, 2:
		if v == 1 {
			c.assume(f)
		}
		return true
	default:
		if v == 0 {
			c.assume(nf)
		}
		return false
	}
}

func (c *Ctx) assume(f *Form) {
	switch f.op {
	case fTrue:
	case fFalse:
		panic(pathEnd{"infeasible"})
	case fAnd:
		for _, a := range f.args {
			c.assume(a)
		}
	default:
		c.pc = append(c.pc, f)
		c.tighten(f)
	}
}

// tighten uses single-variable bounds.
func (c *Ctx) tighten(f *Form) {
	if f.op != fLe && f.op != fEq {
		return
	}
	var v *Var
	var co *big.Int
	ct := new(big.Int)
	for _, t := range f.p.t {
		if t.m == "" {
			ct = t.c
			continue
		}
		vs, es := unpackMono(t.m)
		if len(vs) != 1 || es[0] != 1 || v != nil {
			return
		}
		v = c.vars[vs[0]]
		co = t.c
	}
	if v == nil {
		return
	}
	neg := new(big.Int).Neg(ct)
	q := new(big.Int)
	if co.Sign() > 0 { // v <= floor(-ct/co)
		q.Div(neg, co)
		if v.hi == nil || q.Cmp(v.hi) < 0 {
			v.hi = q
		}
	} else { // v >= ceil(ct/|co|)
		a := new(big.Int).Abs(co)
		q.Add(ct, new(big.Int).Sub(a, b1))
		q.Div(q, a)
		if v.lo == nil || q.Cmp(v.lo) > 0 {
			v.lo = q
		}
	}
	if f.op == fEq && co.Sign() > 0 {
		a := new(big.Int)
		r := new(big.Int)
		a.DivMod(neg, co, r)
		if r.Sign() == 0 {
			v.lo, v.hi = a, a
		}
	}
}

// choose forks over n alternatives.
func (c *Ctx) choose(n int, what string) int {
	if n <= 0 {
		panic(pathEnd{"empty choice"})
	}
	if n == 1 {
		return 0
	}
	k := len(c.trace)
	var v int
	if k < len(c.prefix) {
		v = c.prefix[k]
	} else {
		for i := n - 1; i >= 1; i-- {
			c.ex.push(append(append([]int(nil), c.trace...), i))
		}
		v = 0
	}
	c.trace = append(c.trace, v)
	return v
}

// concretise forks over the values of a bounded polynomial.
func (c *Ctx) concretise(p *Poly, max int64) *big.Int {
	if x := p.cst(); x != nil {
		return x
	}
	lo, hi := c.bounds(p)
	if lo == nil || hi == nil || new(big.Int).Sub(hi, lo).Cmp(bi(max)) > 0 {
		unsup("symbolic value %s needed in concrete form", clip(c.pstr(p)))
	}
	for x := new(big.Int).Set(lo); x.Cmp(hi) < 0; x.Add(x, b1) {
		if c.decide(c.mkEq(p.sub(pconst(x)))) {
			return new(big.Int).Set(x)
		}
	}
	c.assume(c.mkEq(p.sub(pconst(hi))))
	return hi
}

// ---------------------------------------------------------------- inputs and draws

func (c *Ctx) input(kind, name string, lo, hi *big.Int) *Var {
	for _, r := range c.inputs {
		if r.name == name {
			name = fmt.Sprintf("%s#%d", name, len(c.inputs))
		}
	}
	v := c.newVar(name, lo, hi)
	v.isInp = true
	c.inputs = append(c.inputs, inputRec{name, kind, bigP(pvar(v))})
	return v
}

// draw: a value drawn from the real random source.
func (c *Ctx) draw(kind string, lo, hi *big.Int) *Poly {
	v := c.newVar(fmt.Sprintf("rnd%d", len(c.draws)), lo, hi)
	v.rnd, v.revealed = true, c.revealNew
	v.isInp = true
	c.draws = append(c.draws, drawRec{kind: kind, p: pvar(v)})
	c.seq = append(c.seq, seqRec{kind, pvar(v)})
	return pvar(v)
}

// fixedDraw is a draw whose value the harness fixed.
func (c *Ctx) fixedDraw(kind string, hi *big.Int) *Poly {
	c.fixSeed = c.fixSeed*6364136223846793005 + 1442695040888963407
	k := new(big.Int).SetUint64(c.fixSeed >> 1)
	k.Mod(k, hi)
	p := pconst(k)
	c.draws = append(c.draws, drawRec{kind: kind, p: p})
	c.seq = append(c.seq, seqRec{kind, p})
	return p
}

// ---------------------------------------------------------------- random oracle

var two256 = new(big.Int).Lsh(b1, 256)

// oracle returns the value of the random oracle alg on data.
func (c *Ctx) oracle(alg string, data []V, lo, hi *big.Int) *Poly {
	p := c.ask(alg, data, lo, hi)
	if alg == "sha" {
		c.lastHash = p
	}
	return p
}

func (c *Ctx) ask(alg string, data []V, lo, hi *big.Int) *Poly {
	key := fmt.Sprintf("%s/%d/%s", alg, c.run, bytesKey(data))
	for _, d := range c.digests {
		if d.key == key {
			c.seq = append(c.seq, seqRec{alg, d.v})
			return d.v
		}
	}
	for i := 0; i < len(c.digests); i++ {
		d := c.digests[i]
		if d.alg != alg || d.run != c.run || len(d.data) != len(data) {
			continue
		}
		if c.decide(c.bytesEq(d.data, data)) {
			c.digests = append(c.digests, digestRec{alg: alg, data: data, key: key, v: d.v, run: c.run})
			c.seq = append(c.seq, seqRec{alg, d.v})
			return d.v
		}
	}
	if c.fixHash && alg == "sha" {
		k := new(big.Int)
		for i := 0; i < 4; i++ {
			c.fixSeed = c.fixSeed*6364136223846793005 + 1442695040888963407
			k.Add(k.Lsh(k, 64), new(big.Int).SetUint64(c.fixSeed|1<<63))
		}
		v := pconst(k)
		c.digests = append(c.digests, digestRec{alg: alg, data: data, key: key, v: v, run: c.run})
		c.seq = append(c.seq, seqRec{alg, v})
		return v
	}
	v := c.newVar(fmt.Sprintf("%s%d", alg, len(c.digests)), lo, hi)
	v.rnd, v.digest, v.isInp = true, true, true
	if lo != nil && lo.Sign() == 0 && v.wide() {
		v.lo = new(big.Int).Set(b1) // a digest of zero is as unlikely as any other value
	}
	c.pinBy(v, data)
	c.digests = append(c.digests, digestRec{alg: alg, data: data, key: key, v: pvar(v), run: c.run})
	c.seq = append(c.seq, seqRec{alg, pvar(v)})
	return pvar(v)
}

// pinBy computes the adversarial variables fixed by a transcript.
func (c *Ctx) pinBy(d *Var, data []V) {
	type eqn struct {
		p *Poly
		m *big.Int
	}
	var eqs []eqn
	var addVal func(v *BigVal)
	split := func(p *Poly, m *big.Int) {
		// coefficients with respect to monomials of undisclosed honest draws
		groups := map[string]*Poly{}
		var keys []string
		for _, t := range p.t {
			vs, es := unpackMono(t.m)
			var hv, he, rv, re []int
			for i, v := range vs {
				x := c.vars[v]
				if x.rnd && !x.digest && !x.revealed && x.wide() {
					hv, he = append(hv, v), append(he, es[i])
				} else {
					rv, re = append(rv, v), append(re, es[i])
				}
			}
			k := packMono(hv, he)
			if groups[k] == nil {
				groups[k] = &Poly{}
				keys = append(keys, k)
			}
			groups[k] = groups[k].add(&Poly{t: []term{{t.c, packMono(rv, re)}}})
		}
		sort.Strings(keys)
		for _, k := range keys {
			eqs = append(eqs, eqn{groups[k], m})
		}
	}
	addVal = func(v *BigVal) {
		if v.g != nil {
			for _, x := range v.g.e {
				split(x.p, c.atoms[x.a].ord)
			}
			return
		}
		split(v.p, nil)
	}
	var walkEnc func(v V)
	walkEnc = func(v V) {
		switch x := v.(type) {
		case *BigVal:
			addVal(x)
		case []V:
			for _, y := range x {
				walkEnc(y)
			}
		case Struct:
			for _, y := range x {
				walkEnc(y)
			}
		case TB:
			if x.i == 0 {
				if x.t.enc != nil {
					walkEnc(x.t.enc.v)
				} else if x.t.v != nil {
					addVal(x.t.v)
				}
			}
		case *SInt:
			split(x.p, nil)
		case Iface:
			walkEnc(x.v)
		case *V:
			if x != nil {
				walkEnc(*x)
			}
		case gStruct:
			for _, y := range x.vals {
				walkEnc(y)
			}
		case gMap:
			for i := range x.keys {
				walkEnc(x.keys[i])
				walkEnc(x.vals[i])
			}
		case gList:
			for _, y := range x.l {
				walkEnc(y)
			}
		case gBytes:
			for _, y := range x.b {
				walkEnc(y)
			}
		case gBig:
			addVal(x.v)
		case gIface:
			walkEnc(x.v)
		case *SStr:
			for _, y := range x.b {
				walkEnc(y)
			}
		}
	}
	for _, b := range data {
		walkEnc(b)
	}
	pin := map[int]bool{}
	// variables already fixed: everything that is not an adversarial input; earlier digests keep their pins
	isAdv := func(v int) bool { return c.vars[v].adv }
	// the value is one of finitely many when some coefficient of a positive power is not zero
	nonzero := func(e eqn, y int) bool {
		parts := map[int]*Poly{}
		for _, t := range e.p.t {
			k := monoExp(t.m, y)
			if k == 0 {
				continue
			}
			if parts[k] == nil {
				parts[k] = &Poly{}
			}
			parts[k] = parts[k].add(&Poly{t: []term{{t.c, monoWithout(t.m, y)}}})
		}
		zero := func(q *Poly) *Form {
			if e.m != nil {
				return c.mkCong(q, e.m)
			}
			return c.mkEq(q)
		}
		deg := e.p.degIn(y)
		for k := 1; k <= deg; k++ {
			if parts[k] != nil && zero(parts[k]) == FF {
				return true
			}
		}
		for k := 1; k <= deg; k++ {
			if parts[k] != nil && !c.decide(zero(parts[k])) {
				return true
			}
		}
		return false
	}
	tried := map[[2]int]bool{}
	for ch := true; ch; {
		ch = false
		// plain coefficients first, then those that need a case distinction
		for _, plain := range []bool{true, false} {
			for i, e := range eqs {
				set := map[int]bool{}
				e.p.vars(set)
				var open []int
				direct := true
				for v := range set {
					x := c.vars[v]
					vs := []int{v}
					if x.derived() {
						vs = nil
						for y := range c.depsOf(v) {
							vs = append(vs, y)
						}
					}
					for _, y := range vs {
						if isAdv(y) && !pin[y] {
							dup := false
							for _, o := range open {
								dup = dup || o == y
							}
							if !dup {
								open = append(open, y)
							}
							if x.derived() {
								direct = false
							}
						}
					}
				}
				if len(open) != 1 || tried[[2]int{i, open[0]}] || !direct {
					continue
				}
				y := open[0]
				if plain {
					cst := false
					for _, t := range e.p.t {
						if k := monoExp(t.m, y); k > 0 && monoWithout(t.m, y) == "" {
							cst = true
						}
					}
					if !cst {
						continue
					}
				}
				tried[[2]int{i, y}] = true
				if nonzero(e, y) {
					pin[y] = true
					ch = true
				}
			}
			if ch {
				break
			}
		}
	}
	c.pins[d.id] = pin
}

// ---------------------------------------------------------------- assertions

type Violation struct {
	label   string
	harness string
	model   *ModelOut
	path    []string
	detail  string
	trace   []int
}

type ModelOut struct {
	Harness string            `json:"harness"`
	Label   string            `json:"label"`
	Inputs  map[string]string `json:"inputs"`
	Seq     []string          `json:"seq"`
	Choices []int             `json:"choices,omitempty"`
	Detail  string            `json:"detail"`
}

// assertForm checks that f holds on the current path.
func (c *Ctx) assertForm(label string, f *Form) {
	c.ex.countAssert(label)
	nf := c.norm(mkNot(f))
	if nf == FF {
		c.ex.assertDone(label, "normal form")
		// the solver still gets the last word on the (now constant) residual
		c.runQuery("(assert false)\n", nil, c.opt.aTimeout)
		return
	}
	// cheap refutation by the connected part of the path condition first
	if nf != FT {
		r, _ := c.sat(append(c.slice(nf), nf), false, c.opt.aTimeout)
		if r == Unsat {
			c.ex.assertDone(label, "solver")
			c.assume(f)
			return
		}
	}
	lits := append(append([]*Form(nil), c.pc...), nf)
	r, m := c.sat(lits, true, c.opt.aTimeout)
	switch {
	case r == Unsat:
		c.ex.assertDone(label, "solver")
		if nf == FT {
			panic(pathEnd{"infeasible"})
		}
	case r == Sat && m != nil:
		v := &Violation{label: label, detail: clipN(c.fstr(nf), 400), trace: append([]int(nil), c.trace...)}
		v.model = c.modelOut(m)
		v.model.Label = label
		v.model.Detail = v.detail
		c.confirm(lits, m)
		c.ex.addViolation(c, v)
	case r == Sat:
		if c.opt.verbose {
			for _, l := range lits {
				fmt.Println("  LIT", clipN(c.fstr(l), 600))
			}
		}
		c.ex.assertOpen(label, "satisfiable, but no exact assignment was constructed: "+clipN(c.fstr(nf), 300))
	default:
		c.ex.assertOpen(label, "solver gave no answer: "+clipN(c.fstr(nf), 300))
	}
	if nf == FT {
		panic(pathEnd{"assertion failed on the whole path"})
	}
	c.assume(c.norm(f))
}

// confirm asks the solver to check the assignment against the unsimplified constraints.
func (c *Ctx) confirm(lits []*Form, m Model) {
	p := &prob{c: c, lits: lits, elim: map[int]int{}}
	e := &emitter{c: c, p: p, decl: map[int]bool{}}
	var as strings.Builder
	for _, f := range lits {
		as.WriteString("(assert " + e.form(f, true) + ")\n")
	}
	var body strings.Builder
	for _, v := range e.order {
		fmt.Fprintf(&body, "(declare-const v%d Int)\n", v)
		if x := m[v]; x != nil {
			fmt.Fprintf(&body, "(assert (= v%d %s))\n", v, smtNum(x))
		}
	}
	body.WriteString(e.extra.String())
	body.WriteString(as.String())
	q := c.runQuery(body.String(), nil, 5000)
	if q.r == Unsat {
		c.note("the solver rejects an assignment that exact evaluation accepts")
	}
}

func (c *Ctx) modelOut(m Model) *ModelOut {
	val := func(v int) *big.Int {
		if x, ok := m[v]; ok {
			return x
		}
		return nil
	}
	o := &ModelOut{Inputs: map[string]string{}}
	ev := func(p *Poly) string {
		x := c.evalFull(p, val)
		if x == nil {
			return "?"
		}
		return x.String()
	}
	for _, r := range c.inputs {
		if r.v.p != nil {
			o.Inputs[r.name] = ev(r.v.p)
		}
	}
	for _, d := range c.seq {
		o.Seq = append(o.Seq, d.kind+":"+ev(d.p))
	}
	return o
}

func (c *Ctx) evalFull(p *Poly, val func(int) *big.Int) *big.Int {
	memo := map[int]*big.Int{}
	var f func(v int) *big.Int
	f = func(v int) *big.Int {
		if x, ok := memo[v]; ok {
			return x
		}
		x := val(v)
		if x == nil {
			w := c.vars[v]
			switch {
			case w.modP != nil:
				if r := w.modP.eval(f); r != nil {
					x = new(big.Int).Mod(r, w.modM)
				}
			case w.quoP != nil:
				if r := w.quoP.eval(f); r != nil {
					x = new(big.Int).Div(r, w.quoM)
				}
			case w.invP != nil:
				if r := w.invP.eval(f); r != nil {
					x = new(big.Int).ModInverse(new(big.Int).Mod(r, w.invM), w.invM)
				}
			case w.sqrtP != nil:
				if r := w.sqrtP.eval(f); r != nil && r.Sign() >= 0 {
					x = new(big.Int).Sqrt(r)
				}
			}
		}
		memo[v] = x
		return x
	}
	return p.eval(f)
}

func clipN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
