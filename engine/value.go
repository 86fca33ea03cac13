package main

// Symbolic values: machine integers, big integers, group elements, byte tokens.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync"
)

type V = any

// SInt is a symbolic machine integer whose mathematical value (within its type's range) is p.
type SInt struct{ p *Poly }

// SBool is a symbolic boolean.
type SBool struct{ f *Form }

// Struct, arrays and slices follow the usual SSA-interpreter representation.
type Struct []V
type Arr []V

type Iface struct {
	t types.Type // nil: nil interface
	v V
}

type Closure struct {
	fn  any // *ssa.Function
	env []V
}

type Tuple []V

// Native is a value implemented by the engine.
type NativeFn struct {
	name string
	f    func(it *Interp, args []V) V
}

// ---------------------------------------------------------------- big integers and group elements

type Atom struct {
	id    int
	key   string
	name  string
	ord   *big.Int // nil: unknown order (integer exponents)
	mod   *big.Int
	cst   *big.Int // constant base
	isGen bool     // the generator 4 of the squares modulo a safe prime
}

type aexp struct {
	a int
	p *Poly
}

type Grp struct {
	mod *big.Int
	red bool // reduced modulo mod
	e   []aexp
}

// BigVal is an immutable big.Int value.
type BigVal struct {
	p *Poly
	g *Grp
}

func bigC(x *big.Int) *BigVal { return &BigVal{p: pconst(x)} }
func bigP(p *Poly) *BigVal    { return &BigVal{p: p} }

var bigZeroV = bigC(b0)

func (g *Grp) k() string {
	var sb strings.Builder
	sb.WriteString("G" + g.mod.Text(36))
	for _, x := range g.e {
		fmt.Fprintf(&sb, "[%d:%s]", x.a, x.p.k())
	}
	return sb.String()
}

func (v *BigVal) k() string {
	if v.g != nil {
		return v.g.k()
	}
	return v.p.k()
}

func (c *Ctx) atom(key, name string, mod, ord *big.Int, cst *big.Int) *Atom {
	if a, ok := c.atomKey[key]; ok {
		return a
	}
	a := &Atom{id: len(c.atoms), key: key, name: name, ord: ord, mod: mod, cst: cst}
	c.atoms = append(c.atoms, a)
	c.atomKey[key] = a
	return a
}

// groupOrder: for a safe prime p, the order of the quadratic residues; nil when unknown.
func (c *Ctx) groupOrder(p *big.Int) *big.Int {
	if p.BitLen() < 64 {
		return nil
	}
	k := "safe" + p.Text(36)
	if v, ok := primeCache.Load(k); ok {
		o, _ := v.(*big.Int)
		return o
	}
	var ord *big.Int
	if c.isPrime(p) {
		q := new(big.Int).Rsh(new(big.Int).Sub(p, b1), 1)
		if c.isPrime(q) {
			ord = q
		}
	}
	primeCache.Store(k, ord)
	return ord
}

func (c *Ctx) constAtom(x, mod *big.Int) *Atom {
	x = new(big.Int).Mod(x, mod)
	ord := c.groupOrder(mod)
	if ord != nil && x.Cmp(bi(4)) == 0 {
		a := c.atom("c"+mod.Text(36)+":4", "G", mod, ord, x)
		a.isGen = true
		return a
	}
	if ord != nil && big.Jacobi(x, mod) != 1 {
		ord = new(big.Int).Sub(mod, b1)
	}
	return c.atom("c"+mod.Text(36)+":"+x.Text(36), shortInt(x), mod, ord, x)
}

// toGrp views a value as a group element modulo mod.
func (c *Ctx) toGrp(v *BigVal, mod *big.Int) *Grp {
	if v.g != nil {
		if mod != nil && v.g.mod.Cmp(mod) != 0 {
			unsup("group element used with another modulus")
		}
		return v.g
	}
	if x := v.p.cst(); x != nil {
		r := new(big.Int).Mod(x, mod)
		if r.Sign() == 0 {
			return nil // zero: not a group element
		}
		if r.Cmp(b1) == 0 {
			return &Grp{mod: mod, red: x.Cmp(r) == 0}
		}
		if c.groupOrder(mod) != nil {
			if k, ok := genLog(r, mod); ok {
				return &Grp{mod: mod, red: x.Cmp(r) == 0, e: []aexp{{c.constAtom(bi(4), mod).id, c.embed(pint(k), c.groupOrder(mod))}}}
			}
		}
		return &Grp{mod: mod, red: x.Cmp(r) == 0, e: []aexp{{c.constAtom(r, mod).id, pint(1)}}}
	}
	lo, hi := c.bounds(v.p)
	red := lo != nil && lo.Sign() >= 0 && hi != nil && hi.Cmp(mod) < 0
	v = bigP(c.embed(v.p, mod))
	if len(v.p.t) == 0 {
		return nil
	}
	if v.p.cst() != nil {
		g := c.toGrp(v, mod)
		if g != nil {
			g = &Grp{mod: mod, red: red, e: g.e}
		}
		return g
	}
	// x^2k for a single variable: square class
	ord := c.groupOrder(mod)
	name := c.pstr(v.p)
	if len(v.p.t) == 1 && v.p.t[0].c.Cmp(b1) == 0 {
		vs, es := unpackMono(v.p.t[0].m)
		if len(vs) == 1 && es[0]%2 == 0 {
			a := c.atom("q"+mod.Text(36)+":"+pvar(c.vars[vs[0]]).k(), c.vars[vs[0]].name+"^2", mod, ord, nil)
			return &Grp{mod: mod, red: red, e: []aexp{{a.id, pint(int64(es[0] / 2))}}}
		}
	}
	if ord != nil {
		// quadratic residue or not: an undetermined bit
		if c.nonres[mod.Text(36)+v.p.k()] {
			ord = new(big.Int).Sub(mod, b1)
		} else {
			unsup("symbolic integer used as a group element")
		}
	}
	a := c.atom("s"+mod.Text(36)+":"+v.p.k(), name, mod, ord, nil)
	return &Grp{mod: mod, red: red, e: []aexp{{a.id, pint(1)}}}
}

var genLogs sync.Map

// genLog: small discrete logarithms to the base 4.
func genLog(x, mod *big.Int) (int64, bool) {
	k := mod.Text(36)
	m, ok := genLogs.Load(k)
	if !ok {
		t := map[string]int64{}
		inv := new(big.Int).ModInverse(bi(4), mod)
		a, b := big.NewInt(1), big.NewInt(1)
		for i := int64(0); i <= 64; i++ {
			t[a.Text(36)] = i
			t[b.Text(36)] = -i
			a = new(big.Int).Mod(new(big.Int).Mul(a, bi(4)), mod)
			b = new(big.Int).Mod(new(big.Int).Mul(b, inv), mod)
		}
		t["1"] = 0
		m, _ = genLogs.LoadOrStore(k, t)
	}
	r, ok := m.(map[string]int64)[x.Text(36)]
	return r, ok
}

func (c *Ctx) grpNorm(a int, p *Poly) *Poly {
	o := c.atoms[a].ord
	if o == nil {
		return p
	}
	return c.embed(p, o)
}

func (c *Ctx) grpMul(a, b *Grp) *Grp {
	m := map[int]*Poly{}
	for _, x := range a.e {
		m[x.a] = x.p
	}
	for _, x := range b.e {
		if o, ok := m[x.a]; ok {
			m[x.a] = o.add(x.p)
		} else {
			m[x.a] = x.p
		}
	}
	return c.grpOf(a.mod, m)
}

func (c *Ctx) grpOf(mod *big.Int, m map[int]*Poly) *Grp {
	r := &Grp{mod: mod}
	var ids []int
	for a := range m {
		ids = append(ids, a)
	}
	sort.Ints(ids)
	for _, a := range ids {
		p := c.grpNorm(a, m[a])
		if !p.isZero() {
			r.e = append(r.e, aexp{a, p})
		}
	}
	return r
}

func (c *Ctx) grpExp(a *Grp, e *Poly) *Grp {
	m := map[int]*Poly{}
	for _, x := range a.e {
		m[x.a] = x.p.mul(e)
	}
	r := c.grpOf(a.mod, m)
	r.red = true
	return r
}

// grpEq: equality of two group elements, exponent by exponent (independent bases).
func (c *Ctx) grpEq(a, b *Grp) *Form {
	m := map[int]*Poly{}
	for _, x := range a.e {
		m[x.a] = x.p
	}
	for _, x := range b.e {
		if o, ok := m[x.a]; ok {
			m[x.a] = o.sub(x.p)
		} else {
			m[x.a] = x.p.neg()
		}
	}
	var ids []int
	for a := range m {
		ids = append(ids, a)
	}
	sort.Ints(ids)
	var fs []*Form
	for _, id := range ids {
		if o := c.atoms[id].ord; o != nil {
			fs = append(fs, c.congAny(m[id], o))
		} else {
			fs = append(fs, c.mkEq(m[id]))
		}
	}
	return mkAnd(fs...)
}

// congAny splits a congruence modulo an even order 2q into its two halves.
func (c *Ctx) congAny(p *Poly, o *big.Int) *Form {
	if c.isPrime(o) {
		return c.mkCong(p, o)
	}
	if o.Bit(0) == 0 {
		h := new(big.Int).Rsh(o, 1)
		if h.Bit(0) == 1 && c.isPrime(h) {
			return mkAnd(c.mkCong(p, h), c.mkCong(p, b2))
		}
	}
	return c.mkCong(p, o)
}

func (c *Ctx) grpStr(g *Grp) string {
	var s []string
	for _, x := range g.e {
		s = append(s, c.atoms[x.a].name+"^("+c.pstr(x.p)+")")
	}
	if len(s) == 0 {
		return "1"
	}
	return strings.Join(s, " * ")
}

func (c *Ctx) bigStr(v *BigVal) string {
	if v.g != nil {
		return c.grpStr(v.g)
	}
	return c.pstr(v.p)
}

// bigEq: equality of two big integers.
func (c *Ctx) bigEq(a, b *BigVal) *Form {
	if a.g == nil && b.g == nil {
		return c.mkEq(a.p.sub(b.p))
	}
	if a.g == nil {
		a, b = b, a
	}
	if !a.g.red {
		unsup("comparison of an unreduced product")
	}
	if b.g == nil {
		if x := b.p.cst(); x != nil {
			if x.Sign() <= 0 || x.Cmp(a.g.mod) >= 0 {
				return FF
			}
		} else {
			lo, hi := c.bounds(b.p)
			if hi != nil && hi.Sign() <= 0 {
				return FF
			}
			if lo != nil && lo.Cmp(a.g.mod) >= 0 {
				return FF
			}
		}
	} else if !b.g.red {
		unsup("comparison of an unreduced product")
	} else if a.g.mod.Cmp(b.g.mod) != 0 {
		// encodings of elements of two different groups: equal only by accident
		if len(a.g.e) == 0 && len(b.g.e) == 0 {
			return FT
		}
		unsup("comparison of elements of different groups")
	}
	gb := c.toGrp(b, a.g.mod)
	return c.grpEq(a.g, gb)
}

// ---------------------------------------------------------------- bytes

// Tok is an encoded value of a fixed nominal length.
type Tok struct {
	id   int
	kind string // "big" (big-endian magnitude), "dec" (decimal text), "hex", "enc" (gob/protobuf)
	n    int
	v    *BigVal
	enc  *Encoded
	key  string
}

// TB is one byte of a token.
type TB struct {
	t *Tok
	i int
}

// Encoded is the canonical content of a gob or protobuf message.
type Encoded struct {
	codec string
	t     types.Type
	v     V
	key   string
}

// SStr is a string with symbolic content.
type SStr struct{ b []V }

func (c *Ctx) tok(kind string, n int, v *BigVal) *Tok {
	key := fmt.Sprintf("%s/%d/%s", kind, n, v.k())
	if t, ok := c.toks[key]; ok {
		return t
	}
	t := &Tok{id: len(c.toks), kind: kind, n: n, v: v, key: key}
	c.toks[key] = t
	return t
}

func (t *Tok) bytes() []V {
	r := make([]V, t.n)
	for i := range r {
		r[i] = TB{t, i}
	}
	return r
}

func strBytes(v V) []V {
	switch x := v.(type) {
	case string:
		r := make([]V, len(x))
		for i := 0; i < len(x); i++ {
			r[i] = int64(x[i])
		}
		return r
	case *SStr:
		return x.b
	}
	panic(fmt.Sprintf("strBytes %T", v))
}

func mkStr(b []V) V {
	buf := make([]byte, len(b))
	for i, x := range b {
		n, ok := x.(int64)
		if !ok {
			return &SStr{append([]V(nil), b...)}
		}
		buf[i] = byte(n)
	}
	return string(buf)
}

func strLen(v V) int {
	switch x := v.(type) {
	case string:
		return len(x)
	case *SStr:
		return len(x.b)
	}
	panic("strLen")
}

func bytesKey(b []V) string {
	var sb strings.Builder
	for i := 0; i < len(b); i++ {
		switch x := b[i].(type) {
		case int64:
			fmt.Fprintf(&sb, "%02x", byte(x))
		case TB:
			if x.i == 0 && i+x.t.n <= len(b) {
				whole := true
				for j := 1; j < x.t.n; j++ {
					y, ok := b[i+j].(TB)
					if !ok || y.t != x.t || y.i != j {
						whole = false
						break
					}
				}
				if whole {
					sb.WriteString("<" + x.t.key + ">")
					i += x.t.n - 1
					continue
				}
			}
			fmt.Fprintf(&sb, "<%s@%d>", x.t.key, x.i)
		case *SInt:
			sb.WriteString("{" + x.p.k() + "}")
		default:
			unsup("byte of type %T", x)
		}
	}
	return sb.String()
}

// tokAt returns the whole token starting at b[i].
func tokAt(b []V, i int) *Tok {
	if i >= len(b) {
		return nil
	}
	x, ok := b[i].(TB)
	if !ok || x.i != 0 || i+x.t.n > len(b) {
		return nil
	}
	for j := 1; j < x.t.n; j++ {
		y, ok := b[i+j].(TB)
		if !ok || y.t != x.t || y.i != j {
			return nil
		}
	}
	return x.t
}

// bytesEq: equality of two byte sequences.
func (c *Ctx) bytesEq(a, b []V) *Form {
	if len(a) != len(b) {
		return FF
	}
	var fs []*Form
	for i := 0; i < len(a); {
		ta, tb := tokAt(a, i), tokAt(b, i)
		switch {
		case ta != nil && tb != nil && ta.n == tb.n:
			if ta != tb {
				f := c.tokEq(ta, tb)
				if f == FF {
					return FF
				}
				fs = append(fs, f)
			}
			i += ta.n
			continue
		case ta != nil || tb != nil:
			t, o := ta, b
			if t == nil || (tb != nil && tb.n > ta.n) {
				t, o = tb, a
			}
			// token against other bytes
			if t.kind == "big" && i+t.n <= len(o) {
				if v := c.parseBytes(o[i : i+t.n]); v != nil {
					fs = append(fs, c.bigEq(t.v, v))
					i += t.n
					continue
				}
			}
			if t.kind == "mark" || t.kind == "enc" {
				return FF
			}
			if t.kind == "dec" && i == 0 && t.n == len(a) {
				txt := make([]byte, len(o))
				conc := true
				for j, x := range o {
					n, ok := x.(int64)
					if !ok {
						conc = false
						break
					}
					txt[j] = byte(n)
				}
				if conc {
					x, ok := new(big.Int).SetString(string(txt), 10)
					if !ok || x.String() != string(txt) {
						return FF
					}
					return c.bigEq(t.v, bigC(x))
				}
			}
		}
		switch x := a[i].(type) {
		case int64:
			switch y := b[i].(type) {
			case int64:
				if byte(x) != byte(y) {
					return FF
				}
			case *SInt:
				fs = append(fs, c.mkEq(y.p.sub(pint(int64(byte(x))))))
			default:
				fs = append(fs, c.partEq(x, y))
			}
		case *SInt:
			switch y := b[i].(type) {
			case int64:
				fs = append(fs, c.mkEq(x.p.sub(pint(int64(byte(y))))))
			case *SInt:
				fs = append(fs, c.mkEq(x.p.sub(y.p)))
			default:
				fs = append(fs, c.partEq(x, y))
			}
		case TB:
			y, ok := b[i].(TB)
			if !ok || y.i != x.i || y.t != x.t {
				fs = append(fs, c.partEq(x, b[i]))
			}
		}
		i++
	}
	return mkAnd(fs...)
}

// partEq: equality of two bytes at least one of which is part of an encoding whose
// layout is not modelled. They are equal if the encodings are, and otherwise may be or not;
// what follows from a wrong guess does not survive the replay.
func (c *Ctx) partEq(a, b V) *Form {
	ka, kb := bytesKey([]V{a}), bytesKey([]V{b})
	if kb < ka {
		ka, kb = kb, ka
	}
	c.note("bytes of an encoding compared: either outcome considered")
	k := ka + "=" + kb
	v := c.partVars[k]
	if v == nil {
		v = c.newVar("same"+fmt.Sprint(len(c.partVars)), big.NewInt(0), b1)
		c.partVars[k] = v
	}
	f := c.mkEq(pvar(v).sub(pint(1)))
	x, ok1 := a.(TB)
	y, ok2 := b.(TB)
	if ok1 && ok2 && x.i == y.i && x.t.n == y.t.n && x.t.kind == y.t.kind {
		f = mkOr(c.tokEq(x.t, y.t), f)
	}
	return f
}

func (c *Ctx) tokEq(a, b *Tok) *Form {
	if a == b {
		return FT
	}
	if a.kind != b.kind {
		return FF
	}
	if a.kind == "mark" {
		return FF
	}
	if a.kind == "enc" {
		return c.encEq(a.enc, b.enc)
	}
	return c.bigEq(a.v, b.v)
}

// parseBytes interprets big-endian bytes as an integer (nil: not representable).
func (c *Ctx) parseBytes(b []V) *BigVal {
	i := 0
	for i < len(b) {
		if n, ok := b[i].(int64); ok && byte(n) == 0 {
			i++
			continue
		}
		break
	}
	b = b[i:]
	if len(b) == 0 {
		return bigZeroV
	}
	if t := tokAt(b, 0); t != nil && t.n == len(b) {
		if t.kind == "big" {
			return t.v
		}
		return nil
	}
	conc := true
	for _, x := range b {
		switch x.(type) {
		case int64:
		case *SInt:
			conc = false
		default:
			conc = false
			return c.parseMixed(b)
		}
	}
	if conc {
		buf := make([]byte, len(b))
		for i, x := range b {
			buf[i] = byte(x.(int64))
		}
		return bigC(new(big.Int).SetBytes(buf))
	}
	if len(b) > 64 {
		return c.parseMixed(b)
	}
	p := &Poly{}
	for i, x := range b {
		var q *Poly
		switch y := x.(type) {
		case int64:
			q = pint(int64(byte(y)))
		case *SInt:
			q = y.p
		}
		p = p.add(q.scale(new(big.Int).Lsh(b1, uint(8*(len(b)-1-i)))))
	}
	return bigP(p)
}

// parseMixed: whole tokens with plain bytes around them: value as a polynomial of the token values.
func (c *Ctx) parseMixed(b []V) *BigVal {
	p := &Poly{}
	for i := 0; i < len(b); {
		if t := tokAt(b, i); t != nil {
			if t.kind != "big" || t.v.g != nil {
				return nil
			}
			p = p.add(t.v.p.scale(new(big.Int).Lsh(b1, uint(8*(len(b)-i-t.n)))))
			i += t.n
			continue
		}
		if x, ok := b[i].(TB); ok && x.t.kind == "big" && x.t.v.g == nil {
			// a run of bytes out of one encoding: shifted down and reduced
			j := i + 1
			for j < len(b) {
				y, ok := b[j].(TB)
				if !ok || y.t != x.t || y.i != x.i+(j-i) {
					break
				}
				j++
			}
			n := j - i
			v := x.t.v.p
			if k := x.t.n - x.i - n; k > 0 {
				v = c.divOf(v, new(big.Int).Lsh(b1, uint(8*k)))
			}
			if x.i > 0 {
				v = c.modOf(v, new(big.Int).Lsh(b1, uint(8*n)))
			}
			p = p.add(v.scale(new(big.Int).Lsh(b1, uint(8*(len(b)-j)))))
			i = j
			continue
		}
		var q *Poly
		switch y := b[i].(type) {
		case int64:
			q = pint(int64(byte(y)))
		case *SInt:
			q = y.p
		default:
			return nil
		}
		p = p.add(q.scale(new(big.Int).Lsh(b1, uint(8*(len(b)-1-i)))))
		i++
	}
	return bigP(p)
}
