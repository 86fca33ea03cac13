package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var primeCache sync.Map

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (r Res) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type Model map[int]*big.Int

// ---------------------------------------------------------------- statistics

type Stats struct {
	queries   int64 // solver calls (after caching)
	cached    int64
	unsat     int64
	sat       int64
	unknown   int64
	nanos     int64
	maxNanos  int64
	trivial   int64 // residual query was the constant false after normalisation
	sz        int64
	cvc5      int64
	solverErr int64
}

var stats Stats

// ---------------------------------------------------------------- solver processes

type Solver struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

var solverBin = []string{"z3-new", "z3"}

func startSolver() (*Solver, error) {
	var last error
	for _, b := range solverBin {
		p, err := exec.LookPath(b)
		if err != nil {
			last = err
			continue
		}
		cmd := exec.Command(p, "-in", "-smt2", "memory_max_size=3000")
		in, err := cmd.StdinPipe()
		if err != nil {
			return nil, err
		}
		out, err := cmd.StdoutPipe()
		if err != nil {
			return nil, err
		}
		if err := cmd.Start(); err != nil {
			last = err
			continue
		}
		return &Solver{cmd, in, bufio.NewReaderSize(out, 1<<20)}, nil
	}
	return nil, last
}

func (s *Solver) kill() {
	if s != nil && s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

var queryCache sync.Map

type qres struct {
	r  Res
	mv map[string]*big.Int
}

// runQuery sends one complete problem; names: values wanted on sat.
func (c *Ctx) runQuery(body string, names []string, timeoutMs int) qres {
	h := sha256.Sum256([]byte(body + "|" + strings.Join(names, " ")))
	key := hex.EncodeToString(h[:])
	if v, ok := queryCache.Load(key); ok {
		atomic.AddInt64(&stats.cached, 1)
		return v.(qres)
	}
	start := time.Now()
	r := c.rawQuery(body, names, timeoutMs)
	d := time.Since(start).Nanoseconds()
	atomic.AddInt64(&stats.queries, 1)
	atomic.AddInt64(&stats.nanos, d)
	for {
		m := atomic.LoadInt64(&stats.maxNanos)
		if d <= m || atomic.CompareAndSwapInt64(&stats.maxNanos, m, d) {
			break
		}
	}
	switch r.r {
	case Unsat:
		atomic.AddInt64(&stats.unsat, 1)
	case Sat:
		atomic.AddInt64(&stats.sat, 1)
	default:
		atomic.AddInt64(&stats.unknown, 1)
	}
	if r.r != Unknown {
		queryCache.Store(key, r)
	}
	if c.opt.dumpDir != "" {
		dumpQuery(c.opt.dumpDir, key[:16], body, r.r)
	}
	return r
}

func (c *Ctx) rawQuery(body string, names []string, timeoutMs int) qres {
	for try := 0; try < 2; try++ {
		if c.w.solver == nil {
			s, err := startSolver()
			if err != nil {
				atomic.AddInt64(&stats.solverErr, 1)
				return qres{r: Unknown}
			}
			c.w.solver = s
		}
		s := c.w.solver
		var sb strings.Builder
		fmt.Fprintf(&sb, "(reset)\n(set-option :timeout %d)\n(set-option :pp.max_depth 100000)\n(set-option :pp.min_alias_size 1000000)\n", timeoutMs)
		sb.WriteString(body)
		sb.WriteString("(check-sat)\n(echo \"#1\")\n")
		type ans struct {
			r   qres
			err error
		}
		ch := make(chan ans, 1)
		go func() {
			if _, err := io.WriteString(s.in, sb.String()); err != nil {
				ch <- ans{err: err}
				return
			}
			txt, err := readUntil(s.out, "#1")
			if err != nil {
				ch <- ans{err: err}
				return
			}
			txt = strings.TrimSpace(txt)
			switch {
			case strings.HasPrefix(txt, "unsat"):
				ch <- ans{r: qres{r: Unsat}}
				return
			case !strings.HasPrefix(txt, "sat"):
				ch <- ans{r: qres{r: Unknown}}
				return
			}
			q := qres{r: Sat, mv: map[string]*big.Int{}}
			if len(names) > 0 {
				io.WriteString(s.in, "(get-value ("+strings.Join(names, " ")+"))\n(echo \"#2\")\n")
				txt, err := readUntil(s.out, "#2")
				if err != nil {
					ch <- ans{err: err}
					return
				}
				parseValues(txt, q.mv)
			}
			ch <- ans{r: q}
		}()
		select {
		case a := <-ch:
			if a.err != nil {
				s.kill()
				c.w.solver = nil
				continue
			}
			return a.r
		case <-time.After(time.Duration(timeoutMs)*time.Millisecond + 4*time.Second):
			s.kill()
			c.w.solver = nil
			return qres{r: Unknown}
		}
	}
	return qres{r: Unknown}
}

func readUntil(r *bufio.Reader, mark string) (string, error) {
	var sb strings.Builder
	for {
		l, err := r.ReadString('\n')
		if err != nil {
			return "", err
		}
		if strings.TrimSpace(l) == mark {
			return sb.String(), nil
		}
		sb.WriteString(l)
	}
}

func parseValues(s string, out map[string]*big.Int) {
	// ((v1 5) (v2 (- 7)) ...)
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(s))
	for i := 0; i < len(toks); i++ {
		if strings.HasPrefix(toks[i], "v") || strings.HasPrefix(toks[i], "k") {
			n := toks[i]
			j := i + 1
			neg := false
			for j < len(toks) && (toks[j] == "(" || toks[j] == "-") {
				if toks[j] == "-" {
					neg = true
				}
				j++
			}
			if j < len(toks) {
				if x, ok := new(big.Int).SetString(toks[j], 10); ok {
					if neg {
						x.Neg(x)
					}
					out[n] = x
				}
			}
		}
	}
}

// ---------------------------------------------------------------- preprocessing

type subst struct {
	v int
	e *Poly
	m *big.Int // nil: over Z, exact
}

type prob struct {
	c    *Ctx
	lits []*Form
	subs []subst
	elim map[int]int // var -> index in subs
	nzZ  []*Poly
	nzM  map[string][]*Poly
	bad  bool

	deep            bool // the reductions of reduce.go were applied
	implied, pivots map[string]bool
}

func (c *Ctx) applySubs(p *prob, f *Form) *Form {
	for n := 0; n < 10000; n++ {
		set := map[int]bool{}
		f.vars(set)
		best := -1
		for v := range set {
			if _, ok := p.elim[v]; ok && (best < 0 || p.elim[v] < p.elim[best]) {
				best = v
			}
		}
		if best < 0 {
			return f
		}
		s := p.subs[p.elim[best]]
		f = c.fsubst(f, best, s.e)
	}
	unsup("substitution did not end")
	return nil
}

// factorNZ divides known non-zero factors out of an equation.
func (p *prob) factorNZ(f *Form) *Form {
	c := p.c
	q := f.p
	// monomial content
	if m := q.content(); m != "" {
		vs, es := unpackMono(m)
		var keepV, keepE []int
		var dropV, dropE []int
		for i, v := range vs {
			x := c.vars[v]
			nz := false
			if f.op == fEq {
				nz = x.lo != nil && x.lo.Sign() > 0 || x.hi != nil && x.hi.Sign() < 0
			} else {
				nz = x.lo != nil && x.lo.Sign() > 0 && x.hi != nil && x.hi.Cmp(f.m) < 0
			}
			if nz && (f.op == fEq || c.isPrime(f.m)) {
				dropV = append(dropV, v)
				dropE = append(dropE, es[i])
			} else {
				keepV = append(keepV, v)
				keepE = append(keepE, es[i])
			}
		}
		if len(dropV) > 0 {
			q = q.divMono(packMono(dropV, dropE))
		}
		if len(keepV) > 0 && len(q.t) >= 1 && (f.op == fEq || c.isPrime(f.m)) {
			rest := q.divMono(packMono(keepV, keepE))
			var alts []*Form
			mk := func(z *Poly) *Form {
				if f.op == fEq {
					return c.mkEq(z)
				}
				return c.mkCong(z, f.m)
			}
			for _, v := range keepV {
				alts = append(alts, mk(pvar(c.vars[v])))
			}
			alts = append(alts, mk(rest))
			return mkOr(alts...)
		}
	}
	var list []*Poly
	if f.op == fEq {
		list = p.nzZ
	} else if c.isPrime(f.m) {
		list = p.nzM[f.m.Text(36)]
	}
	for _, z := range list {
		if len(z.t) < 2 && len(q.t) < 2 {
			continue
		}
		for {
			if z.cst() != nil {
				break
			}
			d, ok := q.exactDiv(z, f.m)
			if !ok {
				break
			}
			q = d
		}
	}
	if q == f.p {
		return f
	}
	if f.op == fEq {
		return c.mkEq(q)
	}
	return c.mkCong(q, f.m)
}

func (p *prob) noteNonzero(f *Form) {
	if f.op != fNot {
		return
	}
	g := f.args[0]
	c := p.c
	switch g.op {
	case fEq:
		p.nzZ = append(p.nzZ, g.p)
		// small non-zero integers are non-zero modulo large primes
		lo, hi := c.bounds(g.p)
		if lo != nil && hi != nil {
			for k := range c.primes {
				m := c.primes[k]
				if new(big.Int).Neg(m).Cmp(lo) < 0 && hi.Cmp(m) < 0 {
					p.nzM[k] = append(p.nzM[k], c.embed(g.p, m))
				}
			}
		}
	case fCong:
		p.nzM[g.m.Text(36)] = append(p.nzM[g.m.Text(36)], g.p)
	}
}

func (p *prob) simplify() bool { // false: contradiction
	c := p.c
	for round := 0; round < 400; round++ {
		// flatten
		var flat []*Form
		seen := map[string]bool{}
		var add func(f *Form) bool
		add = func(f *Form) bool {
			switch f.op {
			case fTrue:
				return true
			case fFalse:
				return false
			case fAnd:
				for _, a := range f.args {
					if !add(a) {
						return false
					}
				}
				return true
			}
			if seen[f.k()] {
				return true
			}
			if seen[mkNot(f).k()] {
				return false
			}
			seen[f.k()] = true
			flat = append(flat, f)
			return true
		}
		p.nzZ, p.nzM = nil, map[string][]*Poly{}
		for _, f := range p.lits {
			f = c.norm(f)
			if f.op == fNot {
				p.noteNonzero(f)
			}
		}
		for _, f := range p.lits {
			f = c.norm(f)
			if f.op == fEq || f.op == fCong {
				f = c.norm(p.factorNZ(f))
			}
			if !add(f) {
				return false
			}
		}
		p.lits = flat
		// pick an equation to eliminate with
		if !p.eliminate() {
			return true
		}
	}
	return true
}

func (p *prob) eliminate() bool {
	c := p.c
	type cand struct {
		li, v int
		z     bool
		score int
	}
	best := cand{v: -1}
	occ := map[int]int{}              // occurrences in integer literals or definitions
	occM := map[int]map[string]bool{} // moduli of the congruences it occurs in
	defs := map[int]bool{}
	var mark func(f *Form)
	seenDef := map[int]bool{}
	var markDef func(v int)
	markDef = func(v int) {
		if seenDef[v] {
			return
		}
		seenDef[v] = true
		x := c.vars[v]
		if !x.derived() {
			return
		}
		for y := range c.depsOf(v) {
			defs[y] = true
		}
	}
	mark = func(f *Form) {
		switch f.op {
		case fEq, fLe:
			s := map[int]bool{}
			f.p.vars(s)
			for v := range s {
				occ[v]++
				markDef(v)
			}
		case fCong:
			s := map[int]bool{}
			f.p.vars(s)
			for v := range s {
				if occM[v] == nil {
					occM[v] = map[string]bool{}
				}
				occM[v][f.m.Text(36)] = true
				markDef(v)
			}
		default:
			for _, a := range f.args {
				mark(a)
			}
		}
	}
	for _, f := range p.lits {
		mark(f)
	}
	for li, f := range p.lits {
		if f.op != fEq && f.op != fCong {
			continue
		}
		if f.op == fCong && !c.isPrime(f.m) {
			continue
		}
		if p.deep && f.op == fEq && p.hasMod(f.p) {
			continue
		}
		for _, t := range f.p.t {
			if len(t.m) != 6 || t.m[4] != 0 || t.m[5] != 1 {
				continue
			}
			vs, _ := unpackMono(t.m)
			v := vs[0]
			x := c.vars[v]
			if x.derived() {
				continue
			}
			if f.op == fEq && t.c.CmpAbs(b1) != 0 {
				continue
			}
			if f.p.degIn(v) != 1 || countIn(f.p, v) != 1 {
				continue
			}
			// no other variable in the equation may be defined through v
			s := map[int]bool{}
			f.p.vars(s)
			dep := false
			for y := range s {
				if y != v && c.dependsOn(y, v) {
					dep = true
				}
			}
			if dep {
				continue
			}
			score := 0
			if x.rnd {
				score -= 1000
			}
			if x.adv {
				score += 50
			}
			score += v // newer first
			if f.op == fCong {
				full := x.lo == nil || x.lo.Cmp(b1) <= 0
				full = full && (x.hi == nil || x.hi.Cmp(new(big.Int).Sub(f.m, b1)) >= 0)
				onlyThis := occ[v] == 0 && !defs[v] && len(occM[v]) == 1
				if !(full && onlyThis) {
					continue
				}
				score -= 100000
			}
			if best.v < 0 || score > best.score {
				best = cand{li, v, f.op == fEq, score}
			}
		}
	}
	if best.v < 0 {
		return false
	}
	f := p.lits[best.li]
	v := best.v
	x := c.vars[v]
	var coef *big.Int
	for _, t := range f.p.t {
		if monoExp(t.m, v) == 1 {
			coef = t.c
		}
	}
	rest := f.p.sub(pvar(x).scale(coef))
	s := subst{v: v}
	if best.z {
		s.e = rest.neg()
		if coef.Sign() < 0 {
			s.e = rest
		}
	} else {
		inv := new(big.Int).ModInverse(new(big.Int).Mod(coef, f.m), f.m)
		s.e = rest.scale(new(big.Int).Neg(inv)).symCoef(f.m)
		s.m = f.m
	}
	p.subs = append(p.subs, s)
	p.elim[v] = len(p.subs) - 1
	var out []*Form
	for i, g := range p.lits {
		if i == best.li {
			continue
		}
		out = append(out, c.applySubs(p, g))
	}
	if best.z {
		if x.lo != nil {
			out = append(out, c.applySubs(p, c.mkLe(pconst(x.lo).sub(s.e))))
		}
		if x.hi != nil {
			out = append(out, c.applySubs(p, c.mkLe(s.e.sub(pconst(x.hi)))))
		}
	}
	p.lits = out
	return true
}

func countIn(p *Poly, v int) int {
	n := 0
	for _, t := range p.t {
		if monoExp(t.m, v) > 0 {
			n++
		}
	}
	return n
}

// ---------------------------------------------------------------- SMT emission

type emitter struct {
	c     *Ctx
	p     *prob
	decl  map[int]bool
	order []int
	body  strings.Builder
	nk    int
	extra strings.Builder
}

func (e *emitter) use(p *Poly) {
	set := map[int]bool{}
	p.vars(set)
	var l []int
	for v := range set {
		l = append(l, v)
	}
	sort.Ints(l)
	for _, v := range l {
		e.useVar(v)
	}
}

func (e *emitter) sub(p *Poly) *Poly {
	for n := 0; n < 10000; n++ {
		set := map[int]bool{}
		p.vars(set)
		best := -1
		for v := range set {
			if i, ok := e.p.elim[v]; ok && e.p.subs[i].m == nil && (best < 0 || i < e.p.elim[best]) {
				best = v
			}
		}
		if best < 0 {
			return p
		}
		p = p.subst(best, e.p.subs[e.p.elim[best]].e)
	}
	unsup("substitution did not end")
	return nil
}

func (e *emitter) useVar(v int) {
	if e.decl[v] {
		return
	}
	e.decl[v] = true
	e.order = append(e.order, v)
	x := e.c.vars[v]
	if x.lo != nil {
		fmt.Fprintf(&e.extra, "(assert (<= %s v%d))\n", smtNum(x.lo), v)
	}
	if x.hi != nil {
		fmt.Fprintf(&e.extra, "(assert (<= v%d %s))\n", v, smtNum(x.hi))
	}
	switch {
	case x.modP != nil:
		p := e.sub(x.modP)
		e.use(p)
		e.useVar(x.quo.id)
		fmt.Fprintf(&e.extra, "(assert (= %s (+ (* %s v%d) v%d)))\n", p.smt(), smtNum(x.modM), x.quo.id, v)
	case x.quoP != nil:
		e.useVar(x.rem.id)
	case x.sqrtP != nil:
		p := e.sub(x.sqrtP)
		e.use(p)
	case x.invP != nil:
		p := e.sub(x.invP)
		e.use(p)
		e.nk++
		fmt.Fprintf(&e.extra, "(declare-const k%d Int)\n(assert (= (* v%d %s) (+ 1 (* %s k%d))))\n", e.nk, v, p.smt(), smtNum(x.invM), e.nk)
	}
}

func (e *emitter) form(f *Form, pos bool) string {
	switch f.op {
	case fTrue:
		return "true"
	case fFalse:
		return "false"
	case fEq:
		e.use(f.p)
		return "(= " + f.p.smt() + " 0)"
	case fLe:
		e.use(f.p)
		return "(<= " + f.p.smt() + " 0)"
	case fCong:
		e.use(f.p)
		if pos {
			e.nk++
			fmt.Fprintf(&e.extra, "(declare-const k%d Int)\n", e.nk)
			return fmt.Sprintf("(= %s (* %s k%d))", f.p.smt(), smtNum(f.m), e.nk)
		}
		e.nk += 2
		fmt.Fprintf(&e.extra, "(declare-const k%d Int)\n(declare-const k%d Int)\n", e.nk-1, e.nk)
		// caller negates: give a formula whose negation is the witness form
		return fmt.Sprintf("(not (and (= %s (+ (* %s k%d) k%d)) (< 0 k%d) (< k%d %s)))", f.p.smt(), smtNum(f.m), e.nk-1, e.nk, e.nk, e.nk, smtNum(f.m))
	case fNot:
		return "(not " + e.form(f.args[0], !pos) + ")"
	}
	var s []string
	for _, a := range f.args {
		s = append(s, e.form(a, pos))
	}
	return "(" + map[fop]string{fAnd: "and", fOr: "or"}[f.op] + " " + strings.Join(s, " ") + ")"
}

// ---------------------------------------------------------------- top level

type budget struct {
	cases   int
	timeout int
}

// sat decides the conjunction of lits; on Sat with a verified assignment the model is returned.
func (c *Ctx) sat(lits []*Form, wantModel bool, timeoutMs int) (Res, Model) {
	b := &budget{cases: 256, timeout: timeoutMs}
	return c.satRec(&prob{c: c, lits: append([]*Form(nil), lits...), elim: map[int]int{}}, lits, wantModel, b)
}

func (c *Ctx) satRec(p *prob, orig []*Form, wantModel bool, b *budget) (Res, Model) {
	if c.expired() {
		return Unknown, nil
	}
	if !p.simplify() {
		atomic.AddInt64(&stats.trivial, 1)
		c.runQuery("(assert false)\n", nil, b.timeout)
		return Unsat, nil
	}
	// case split
	for i, f := range p.lits {
		if f.op != fOr {
			continue
		}
		if b.cases < len(f.args) {
			break
		}
		b.cases -= len(f.args)
		worst := Unsat
		for _, a := range f.args {
			q := &prob{c: c, elim: map[int]int{}, deep: p.deep}
			q.subs = append(q.subs, p.subs...)
			for k, v := range p.elim {
				q.elim[k] = v
			}
			q.lits = append(q.lits, p.lits[:i]...)
			q.lits = append(q.lits, a)
			q.lits = append(q.lits, p.lits[i+1:]...)
			r, m := c.satRec(q, orig, wantModel, b)
			if r == Sat {
				return Sat, m
			}
			if r == Unknown {
				worst = Unknown
			}
		}
		return worst, nil
	}
	// cheap model first: sampling
	if m := c.sample(p, orig, nil, 3); m != nil {
		// still recorded as decided by a checked assignment
		return Sat, m
	}
	e := &emitter{c: c, p: p, decl: map[int]bool{}}
	var asserts strings.Builder
	for _, f := range p.lits {
		asserts.WriteString("(assert " + e.form(f, true) + ")\n")
	}
	var body strings.Builder
	for _, v := range e.order {
		fmt.Fprintf(&body, "(declare-const v%d Int)\n", v)
	}
	body.WriteString(e.extra.String())
	body.WriteString(asserts.String())
	var names []string
	for _, v := range e.order {
		names = append(names, fmt.Sprintf("v%d", v))
	}
	q := c.runQuery(body.String(), names, b.timeout)
	if q.r == Sat {
		base := Model{}
		for _, v := range e.order {
			if x := q.mv[fmt.Sprintf("v%d", v)]; x != nil {
				base[v] = x
			}
		}
		if m := c.sample(p, orig, base, 8); m != nil {
			return Sat, m
		}
		if wantModel {
			r, m := c.deeper(p, orig, b)
			if r == Unsat || m != nil {
				return r, m
			}
			if m := c.instantiate(p, orig, b); m != nil {
				return Sat, m
			}
			if r == Unknown {
				return r, nil
			}
			c.note("solver model could not be completed to an exact assignment")
		}
		return Sat, nil
	}
	if q.r == Unknown {
		// a longer random search before giving up
		if m := c.sample(p, orig, nil, 40); m != nil {
			return Sat, m
		}
		if wantModel {
			if r, m := c.deeper(p, orig, b); r != Unknown {
				return r, m
			}
			if m := c.instantiate(p, orig, b); m != nil {
				return Sat, m
			}
		}
	}
	return q.r, nil
}

// instantiate looks for an assignment for an undecided leaf by fixing variables of its
// non-linear congruences until what remains is linear.
func (c *Ctx) instantiate(p *prob, orig []*Form, b *budget) Model {
	if p.deep {
		return nil
	}
	for try := 0; try < 6 && !c.expired(); try++ {
		rng := rand.New(rand.NewSource(c.opt.seed + int64(try)*104729 + 5))
		q := &prob{c: c, elim: map[int]int{}, deep: true}
		q.subs = append(q.subs, p.subs...)
		for k, v := range p.elim {
			q.elim[k] = v
		}
		q.lits = append(q.lits, p.lits...)
		fixed := 0
		for ; fixed < 60; fixed++ {
			if !q.simplify() {
				fixed = -1
				break
			}
			v := c.mostNonlinear(q, rng, try)
			if v < 0 {
				break
			}
			x := c.vars[v]
			r := randIn(rng, x.lo, x.hi, try)
			if r == nil {
				fixed = -1
				break
			}
			q.lits = append(q.lits, c.mkEq(pvar(x).sub(pconst(r))))
		}
		if fixed <= 0 {
			continue
		}
		if c.opt.verbose {
			for _, l := range q.lits {
				fmt.Println("  INST", try, clipN(c.fstr(l), 300))
			}
		}
		b2 := &budget{cases: 16, timeout: b.timeout / 4}
		if r, m := c.satRec(q, orig, true, b2); r == Sat && m != nil {
			return m
		}
	}
	return nil
}

// mostNonlinear: a plain variable in products of variables, or -1.
func (c *Ctx) mostNonlinear(p *prob, rng *rand.Rand, try int) int {
	count := map[int]int{}
	var walk func(f *Form)
	walk = func(f *Form) {
		if f.op == fCong || f.op == fEq {
			for _, t := range f.p.t {
				vs, es := unpackMono(t.m)
				if len(vs) > 1 || len(vs) == 1 && es[0] > 1 {
					for _, v := range vs {
						x := c.vars[v]
						if x.modP == nil && x.quoP == nil && x.invP == nil && x.sqrtP == nil {
							count[v]++
						}
					}
				}
			}
		}
		for _, a := range f.args {
			walk(a)
		}
	}
	for _, f := range p.lits {
		if f.op == fCong || f.op == fEq {
			walk(f)
		}
	}
	best, n := -1, 0
	var ids []int
	for v := range count {
		ids = append(ids, v)
	}
	sort.Ints(ids)
	for _, v := range ids {
		k := count[v]*4 + rng.Intn(1+4*try)
		if k > n {
			best, n = v, k
		}
	}
	return best
}

// deeper tries an undecided leaf again after the reductions of reduce.go.
func (c *Ctx) deeper(p *prob, orig []*Form, b *budget) (Res, Model) {
	if p.deep {
		return Unknown, nil
	}
	q := &prob{c: c, elim: map[int]int{}, deep: true}
	// the disjuncts chosen so far are among p.lits, with variables replaced: start again from the given
	// literals and keep those choices as well
	q.lits = append(append(q.lits, orig...), p.lits...)
	for n := 0; n < 30; n++ {
		if !q.reduce() {
			break
		}
		if !q.simplify() {
			atomic.AddInt64(&stats.trivial, 1)
			c.runQuery("(assert false)\n", nil, b.timeout)
			return Unsat, nil
		}
	}
	if c.opt.verbose {
		for _, l := range q.lits {
			fmt.Println("  DEEP", clipN(c.fstr(l), 600))
		}
	}
	return c.satRec(q, orig, true, b)
}

// sample completes a partial assignment at random and checks every original literal exactly.
func (c *Ctx) sample(p *prob, orig []*Form, base Model, tries int) Model {
	for t := 0; t < tries; t++ {
		rng := rand.New(rand.NewSource(c.opt.seed + int64(t)*7919 + 17))
		m := Model{}
		ok := true
		var val func(v int) *big.Int
		depth := 0
		val = func(v int) *big.Int {
			if x, done := m[v]; done {
				return x
			}
			depth++
			defer func() { depth-- }()
			if depth > 2000 {
				ok = false
				return b0
			}
			x := c.vars[v]
			var r *big.Int
			if i, el := p.elim[v]; el {
				r = p.subs[i].e.eval(val)
				if r != nil && p.subs[i].m != nil {
					r = new(big.Int).Mod(r, p.subs[i].m)
				}
			} else if x.modP != nil {
				r = x.modP.eval(val)
				if r != nil {
					r = new(big.Int).Mod(r, x.modM)
				}
			} else if x.quoP != nil {
				r = x.quoP.eval(val)
				if r != nil {
					r = new(big.Int).Div(r, x.quoM)
				}
			} else if x.invP != nil {
				r = x.invP.eval(val)
				if r != nil {
					r = new(big.Int).ModInverse(new(big.Int).Mod(r, x.invM), x.invM)
				}
			} else if x.sqrtP != nil {
				r = x.sqrtP.eval(val)
				if r != nil && r.Sign() >= 0 {
					r = new(big.Int).Sqrt(r)
				} else {
					r = nil
				}
			} else if base != nil && base[v] != nil {
				r = base[v]
			} else {
				r = randIn(rng, x.lo, x.hi, t)
			}
			if r == nil {
				ok = false
				r = b0
			}
			if x.lo != nil && r.Cmp(x.lo) < 0 || x.hi != nil && r.Cmp(x.hi) > 0 {
				ok = false
			}
			m[v] = r
			return r
		}
		for _, f := range orig {
			g, known := f.eval(val)
			if !ok || !known || !g {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		for _, x := range c.vars {
			if x.isInp {
				val(x.id)
			}
		}
		if ok {
			return m
		}
	}
	return nil
}

func randIn(rng *rand.Rand, lo, hi *big.Int, t int) *big.Int {
	switch {
	case lo != nil && hi != nil:
		d := new(big.Int).Sub(hi, lo)
		d.Add(d, b1)
		if d.Sign() <= 0 {
			return nil
		}
		return new(big.Int).Add(new(big.Int).Rand(rng, d), lo)
	case lo != nil:
		d := new(big.Int).Lsh(b1, uint(8+24*(t%4)))
		return new(big.Int).Add(new(big.Int).Rand(rng, d), lo)
	case hi != nil:
		d := new(big.Int).Lsh(b1, uint(8+24*(t%4)))
		x := new(big.Int).Rand(rng, d)
		return x.Sub(hi, x)
	}
	d := new(big.Int).Lsh(b1, uint(8+24*(t%4)))
	h := new(big.Int).Rsh(d, 1)
	return new(big.Int).Sub(new(big.Int).Rand(rng, d), h)
}
