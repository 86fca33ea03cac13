package main

// Integer polynomials over symbolic variables, with exact normal forms.

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"strings"
)

var (
	b0 = big.NewInt(0)
	b1 = big.NewInt(1)
	b2 = big.NewInt(2)
)

func bi(n int64) *big.Int { return big.NewInt(n) }

// Var is a symbolic integer.
type Var struct {
	id     int
	name   string
	lo, hi *big.Int // inclusive bounds, nil: unbounded
	rnd    bool     // drawn by an honest party: nothing an adversary picks depends on it
	isInp  bool     // harness input or random draw: takes its value from a model on replay

	modP *Poly // v = modP mod modM (Euclidean), quotient in quo
	modM *big.Int
	quo  *Var
	quoP *Poly // this var is the quotient of quoP by quoM
	quoM *big.Int
	rem  *Var

	invP *Poly // v * invP == 1 (mod invM)
	invM *big.Int

	sqrtP *Poly // integer square root

	digest   bool // output of the random oracle
	adv      bool // chosen by an adversary who sees earlier digests and revealed draws
	opq      bool // uninterpreted function of a group element
	revealed bool // an honest draw disclosed to the adversary
}

func (v *Var) derived() bool {
	return v.modP != nil || v.quoP != nil || v.invP != nil || v.sqrtP != nil
}

type term struct {
	c *big.Int
	m string // packed monomial: (id uint32, exp uint16)*
}

// Poly is immutable: sum of terms sorted by monomial.
type Poly struct {
	t   []term
	key string
}

func pconst(c *big.Int) *Poly {
	if c.Sign() == 0 {
		return &Poly{}
	}
	return &Poly{t: []term{{new(big.Int).Set(c), ""}}}
}
func pint(c int64) *Poly { return pconst(bi(c)) }

func packMono(vs []int, es []int) string {
	b := make([]byte, 0, 6*len(vs))
	for i := range vs {
		b = binary.BigEndian.AppendUint32(b, uint32(vs[i]))
		b = binary.BigEndian.AppendUint16(b, uint16(es[i]))
	}
	return string(b)
}

func unpackMono(m string) (vs []int, es []int) {
	for i := 0; i+6 <= len(m); i += 6 {
		vs = append(vs, int(binary.BigEndian.Uint32([]byte(m[i:i+4]))))
		es = append(es, int(binary.BigEndian.Uint16([]byte(m[i+4:i+6]))))
	}
	return
}

func pvar(v *Var) *Poly {
	return &Poly{t: []term{{bi(1), packMono([]int{v.id}, []int{1})}}}
}

func monoMul(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	out := make([]byte, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		x, y := a[i:i+4], b[j:j+4]
		switch {
		case x < y:
			out = append(out, a[i:i+6]...)
			i += 6
		case x > y:
			out = append(out, b[j:j+6]...)
			j += 6
		default:
			e := binary.BigEndian.Uint16([]byte(a[i+4:i+6])) + binary.BigEndian.Uint16([]byte(b[j+4:j+6]))
			out = append(out, x...)
			out = binary.BigEndian.AppendUint16(out, e)
			i += 6
			j += 6
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	return string(out)
}

// monoDiv returns a/b if b divides a.
func monoDiv(a, b string) (string, bool) {
	if b == "" {
		return a, true
	}
	out := make([]byte, 0, len(a))
	i, j := 0, 0
	for i < len(a) {
		if j < len(b) && a[i:i+4] == b[j:j+4] {
			ea := binary.BigEndian.Uint16([]byte(a[i+4 : i+6]))
			eb := binary.BigEndian.Uint16([]byte(b[j+4 : j+6]))
			if eb > ea {
				return "", false
			}
			if ea > eb {
				out = append(out, a[i:i+4]...)
				out = binary.BigEndian.AppendUint16(out, ea-eb)
			}
			j += 6
		} else {
			out = append(out, a[i:i+6]...)
		}
		i += 6
	}
	return string(out), j == len(b)
}

const tooLarge = Unsup("polynomial too large")

func fromMap(m map[string]*big.Int) *Poly {
	p := &Poly{}
	for k, c := range m {
		if c.Sign() != 0 {
			p.t = append(p.t, term{c, k})
		}
	}
	sort.Slice(p.t, func(i, j int) bool { return p.t[i].m < p.t[j].m })
	if len(p.t) > 20000 {
		panic(tooLarge)
	}
	return p
}

func (p *Poly) add(q *Poly) *Poly { return p.lin(q, b1) }
func (p *Poly) sub(q *Poly) *Poly { return p.lin(q, bi(-1)) }

func (p *Poly) lin(q *Poly, k *big.Int) *Poly {
	r := &Poly{t: make([]term, 0, len(p.t)+len(q.t))}
	i, j := 0, 0
	for i < len(p.t) || j < len(q.t) {
		switch {
		case j >= len(q.t) || i < len(p.t) && p.t[i].m < q.t[j].m:
			r.t = append(r.t, p.t[i])
			i++
		case i >= len(p.t) || q.t[j].m < p.t[i].m:
			r.t = append(r.t, term{new(big.Int).Mul(q.t[j].c, k), q.t[j].m})
			j++
		default:
			c := new(big.Int).Mul(q.t[j].c, k)
			c.Add(c, p.t[i].c)
			if c.Sign() != 0 {
				r.t = append(r.t, term{c, p.t[i].m})
			}
			i++
			j++
		}
	}
	return r
}

func (p *Poly) neg() *Poly { return p.scale(bi(-1)) }
func (p *Poly) scale(k *big.Int) *Poly {
	if k.Sign() == 0 {
		return &Poly{}
	}
	r := &Poly{t: make([]term, len(p.t))}
	for i, t := range p.t {
		r.t[i] = term{new(big.Int).Mul(t.c, k), t.m}
	}
	return r
}

func (p *Poly) mul(q *Poly) *Poly {
	if len(p.t) == 0 || len(q.t) == 0 {
		return &Poly{}
	}
	if c := p.cst(); c != nil {
		return q.scale(c)
	}
	if c := q.cst(); c != nil {
		return p.scale(c)
	}
	m := map[string]*big.Int{}
	for _, a := range p.t {
		for _, b := range q.t {
			k := monoMul(a.m, b.m)
			c := new(big.Int).Mul(a.c, b.c)
			if o, ok := m[k]; ok {
				o.Add(o, c)
			} else {
				m[k] = c
			}
		}
	}
	return fromMap(m)
}

func (p *Poly) pow(n int) *Poly {
	r := pint(1)
	for i := 0; i < n; i++ {
		r = r.mul(p)
	}
	return r
}

// cst returns the constant value, or nil.
func (p *Poly) cst() *big.Int {
	if len(p.t) == 0 {
		return b0
	}
	if len(p.t) == 1 && p.t[0].m == "" {
		return p.t[0].c
	}
	return nil
}
func (p *Poly) isZero() bool { return len(p.t) == 0 }

func (p *Poly) k() string {
	if p.key == "" {
		var sb strings.Builder
		for _, t := range p.t {
			sb.WriteString(t.c.Text(36))
			sb.WriteByte(';')
			sb.WriteString(fmt.Sprintf("%x", t.m))
			sb.WriteByte('|')
		}
		p.key = "P" + sb.String()
	}
	return p.key
}

func (p *Poly) eq(q *Poly) bool { return p.k() == q.k() }

func (p *Poly) vars(set map[int]bool) {
	for _, t := range p.t {
		for i := 0; i < len(t.m); i += 6 {
			set[int(binary.BigEndian.Uint32([]byte(t.m[i:i+4])))] = true
		}
	}
}

func (p *Poly) modCoef(m *big.Int) *Poly {
	r := &Poly{}
	for _, t := range p.t {
		c := new(big.Int).Mod(t.c, m)
		if c.Sign() != 0 {
			r.t = append(r.t, term{c, t.m})
		}
	}
	return r
}

// substitute v := q
func (p *Poly) subst(v int, q *Poly) *Poly {
	has := false
	for _, t := range p.t {
		if monoExp(t.m, v) > 0 {
			has = true
			break
		}
	}
	if !has {
		return p
	}
	r := &Poly{}
	pows := []*Poly{pint(1)}
	groups := map[int]map[string]*big.Int{}
	maxE := 0
	for _, t := range p.t {
		e := monoExp(t.m, v)
		rest := monoWithout(t.m, v)
		if groups[e] == nil {
			groups[e] = map[string]*big.Int{}
		}
		groups[e][rest] = t.c
		if e > maxE {
			maxE = e
		}
	}
	for len(pows) <= maxE {
		pows = append(pows, pows[len(pows)-1].mul(q))
	}
	for e := 0; e <= maxE; e++ {
		if g := groups[e]; g != nil {
			r = r.add(fromMap(g).mul(pows[e]))
		}
	}
	return r
}

func monoExp(m string, v int) int {
	for i := 0; i < len(m); i += 6 {
		if int(binary.BigEndian.Uint32([]byte(m[i:i+4]))) == v {
			return int(binary.BigEndian.Uint16([]byte(m[i+4 : i+6])))
		}
	}
	return 0
}

func monoWithout(m string, v int) string {
	for i := 0; i < len(m); i += 6 {
		if int(binary.BigEndian.Uint32([]byte(m[i:i+4]))) == v {
			return m[:i] + m[i+6:]
		}
	}
	return m
}

func (p *Poly) degIn(v int) int {
	d := 0
	for _, t := range p.t {
		if e := monoExp(t.m, v); e > d {
			d = e
		}
	}
	return d
}

// exactDiv returns p/f when f divides p exactly (coefficients: integers, or mod m if m != nil).
func (p *Poly) exactDiv(f *Poly, m *big.Int) (*Poly, bool) {
	if f.isZero() {
		return nil, false
	}
	// leading term: largest packed monomial under graded order is needed for a true monomial order;
	// use lex on (id, exp) vectors via comparison function.
	lt := func(q *Poly) term {
		best := q.t[0]
		for _, t := range q.t[1:] {
			if lexLess(best.m, t.m) {
				best = t
			}
		}
		return best
	}
	quo := &Poly{}
	rem := p
	fl := lt(f)
	var inv *big.Int
	if m != nil {
		inv = new(big.Int).ModInverse(new(big.Int).Mod(fl.c, m), m)
		if inv == nil {
			return nil, false
		}
	}
	for steps := 0; !rem.isZero(); steps++ {
		if steps > 5000 {
			return nil, false
		}
		rl := lt(rem)
		mm, ok := monoDiv(rl.m, fl.m)
		if !ok {
			return nil, false
		}
		var c *big.Int
		if m != nil {
			c = new(big.Int).Mul(rl.c, inv)
			c.Mod(c, m)
		} else {
			r := new(big.Int)
			c, r = new(big.Int).QuoRem(rl.c, fl.c, r)
			if r.Sign() != 0 {
				return nil, false
			}
		}
		q := &Poly{t: []term{{c, mm}}}
		quo = quo.add(q)
		rem = rem.sub(q.mul(f))
		if m != nil {
			rem = rem.modCoef(m)
		}
	}
	return quo, true
}

// lexLess: lexicographic monomial order with smaller ids more significant.
func lexLess(a, b string) bool {
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		x, y := a[i:i+4], b[j:j+4]
		if x != y {
			// the one containing the smaller id is larger
			return x > y
		}
		ea, eb := a[i+4:i+6], b[j+4:j+6]
		if ea != eb {
			return ea < eb
		}
		i += 6
		j += 6
	}
	return i >= len(a) && j < len(b)
}

// content returns the common monomial factor (as variable ids) of all terms.
func (p *Poly) content() string {
	if len(p.t) == 0 {
		return ""
	}
	vs, es := unpackMono(p.t[0].m)
	var ov, oe []int
	for i, v := range vs {
		e := es[i]
		for _, t := range p.t[1:] {
			if x := monoExp(t.m, v); x < e {
				e = x
			}
		}
		if e > 0 {
			ov = append(ov, v)
			oe = append(oe, e)
		}
	}
	return packMono(ov, oe)
}

func (p *Poly) divMono(m string) *Poly {
	if m == "" {
		return p
	}
	r := &Poly{}
	for _, t := range p.t {
		q, ok := monoDiv(t.m, m)
		if !ok {
			panic("divMono")
		}
		r.t = append(r.t, term{t.c, q})
	}
	sort.Slice(r.t, func(i, j int) bool { return r.t[i].m < r.t[j].m })
	return r
}

// String for humans.
func (c *Ctx) pstr(p *Poly) string {
	if p.isZero() {
		return "0"
	}
	var parts []string
	for _, t := range p.t {
		vs, es := unpackMono(t.m)
		var f []string
		if t.c.Cmp(b1) != 0 || len(vs) == 0 {
			s := t.c.String()
			if len(s) > 24 {
				s = "0x" + t.c.Text(16)[:8] + "..."
			}
			f = append(f, s)
		}
		for i, v := range vs {
			n := c.vars[v].name
			if es[i] > 1 {
				n += fmt.Sprintf("^%d", es[i])
			}
			f = append(f, n)
		}
		parts = append(parts, strings.Join(f, "*"))
	}
	return strings.Join(parts, " + ")
}

// smt rendering
func smtNum(c *big.Int) string {
	if c.Sign() < 0 {
		return "(- " + new(big.Int).Neg(c).String() + ")"
	}
	return c.String()
}

func (p *Poly) smt() string {
	if p.isZero() {
		return "0"
	}
	var parts []string
	for _, t := range p.t {
		vs, es := unpackMono(t.m)
		if len(vs) == 0 {
			parts = append(parts, smtNum(t.c))
			continue
		}
		var f []string
		if t.c.Cmp(b1) != 0 {
			f = append(f, smtNum(t.c))
		}
		for i, v := range vs {
			for e := 0; e < es[i]; e++ {
				f = append(f, fmt.Sprintf("v%d", v))
			}
		}
		if len(f) == 1 {
			parts = append(parts, f[0])
		} else {
			parts = append(parts, "(* "+strings.Join(f, " ")+")")
		}
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

// eval under an assignment (missing variables: nil result)
func (p *Poly) eval(val func(int) *big.Int) *big.Int {
	r := new(big.Int)
	for _, t := range p.t {
		vs, es := unpackMono(t.m)
		x := new(big.Int).Set(t.c)
		for i, v := range vs {
			b := val(v)
			if b == nil {
				return nil
			}
			for e := 0; e < es[i]; e++ {
				x.Mul(x, b)
			}
		}
		r.Add(r, x)
	}
	return r
}
