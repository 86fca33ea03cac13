package main

// math/big.Int on symbolic values.

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type intrinsic = func(it *Interp, caller *frame, fn *ssa.Function, args []V) V

func (it *Interp) bigOf(v V) *BigVal {
	p := it.deref(v)
	b, ok := (*p).(*BigVal)
	if !ok {
		unsup("big.Int expected, got %T", *p)
	}
	return b
}

func (it *Interp) setBig(v V, x *BigVal) V {
	p := it.deref(v)
	if x.g != nil && x.g.red && len(x.g.e) == 0 {
		x = bigC(b1)
	}
	*p = x
	return v
}

func newBig(x *BigVal) *V {
	p := new(V)
	*p = x
	return p
}

func (b *BigVal) cst() *big.Int {
	if b.p == nil {
		return nil
	}
	return b.p.cst()
}

func (it *Interp) needConst(v V, what string) *big.Int {
	b := it.bigOf(v)
	if x := b.cst(); x != nil {
		return x
	}
	if b.p != nil {
		lo, hi := it.c.bounds(b.p)
		if lo != nil && hi != nil && new(big.Int).Sub(hi, lo).Cmp(bi(64)) <= 0 {
			return it.c.concretise(b.p, 64)
		}
	}
	unsup("symbolic %s", what)
	return nil
}

func (it *Interp) bigMul(a, b *BigVal) *BigVal {
	if a.g == nil && b.g == nil {
		return bigP(a.p.mul(b.p))
	}
	if a.g == nil {
		a, b = b, a
	}
	if x := b.cst(); x != nil {
		if x.Sign() == 0 {
			return bigZeroV
		}
		if x.Cmp(b1) == 0 {
			return a
		}
	}
	g := it.c.toGrp(b, a.g.mod)
	if g == nil {
		return bigZeroV
	}
	r := it.c.grpMul(a.g, g)
	r.red = false
	return &BigVal{g: r}
}

func (it *Interp) bigMod(a *BigVal, m *big.Int) *BigVal {
	if m.Sign() == 0 {
		it.runtimePanic("integer divide by zero")
	}
	m = new(big.Int).Abs(m)
	if a.g == nil {
		return bigP(it.c.modOf(a.p, m))
	}
	if a.g.mod.Cmp(m) == 0 {
		return &BigVal{g: &Grp{mod: m, red: true, e: a.g.e}}
	}
	if a.g.red && a.g.mod.Cmp(m) < 0 {
		return a
	}
	// the integer representative of a group element reduced by something else: an opaque value
	if a.g.red {
		return bigP(it.c.opaque("rep mod", a, new(big.Int), new(big.Int).Sub(m, b1), m))
	}
	unsup("product of group elements reduced by another modulus")
	return nil
}

// opaque: an uninterpreted function of a value.
func (c *Ctx) opaque(what string, a *BigVal, lo, hi, m *big.Int) *Poly {
	key := "o" + what + a.k()
	if m != nil {
		key += m.Text(36)
	}
	if r, ok := c.modCache[key]; ok {
		return r
	}
	v := c.newVar(what+"("+clip(c.bigStr(a))+")", lo, hi)
	v.opq = true
	r := pvar(v)
	c.modCache[key] = r
	c.note("an integer operation on the representative of a group element is treated as an uninterpreted function")
	return r
}

func (it *Interp) bigAdd(a, b *BigVal, sign int64) *BigVal {
	if a.g == nil && b.g == nil {
		if sign > 0 {
			return bigP(a.p.add(b.p))
		}
		return bigP(a.p.sub(b.p))
	}
	if x := b.cst(); x != nil && x.Sign() == 0 {
		return a
	}
	if x := a.cst(); x != nil && x.Sign() == 0 && sign > 0 {
		return b
	}
	return bigP(it.intRep(a).add(it.intRep(b).scale(bi(sign))))
}

// intRep: the integer value as a polynomial (an opaque variable for group elements).
func (it *Interp) intRep(a *BigVal) *Poly {
	if a.g == nil {
		return a.p
	}
	if !a.g.red {
		unsup("integer arithmetic on an unreduced product of group elements")
	}
	return it.c.opaque("rep", a, new(big.Int).Set(b1), new(big.Int).Sub(a.g.mod, b1), nil)
}

// bigExp computes x^y mod m; nil: no inverse (Go leaves the receiver unchanged and returns nil).
func (it *Interp) bigExp(x, y *BigVal, m *big.Int) *BigVal {
	c := it.c
	if m == nil || m.Sign() == 0 {
		xc, yc := x.cst(), y.cst()
		if yc != nil && yc.Sign() <= 0 {
			return bigC(b1)
		}
		if yc == nil {
			unsup("plain power with a symbolic exponent")
		}
		if yc.BitLen() > 12 {
			unsup("plain power with exponent %s", shortInt(yc))
		}
		if xc != nil {
			return bigC(new(big.Int).Exp(xc, yc, nil))
		}
		if x.g != nil {
			r := c.grpExp(x.g, pconst(yc))
			r.red = false
			return &BigVal{g: r}
		}
		return bigP(x.p.pow(int(yc.Int64())))
	}
	m = new(big.Int).Abs(m)
	if y.g != nil {
		y = bigP(it.intRep(y))
	}
	if x.g == nil {
		if xc := x.cst(); xc != nil {
			r := new(big.Int).Mod(xc, m)
			if r.Sign() == 0 {
				lo, _ := c.bounds(y.p)
				if lo != nil && lo.Sign() > 0 {
					return bigZeroV
				}
				if c.decide(c.mkEq(y.p)) {
					return bigC(new(big.Int).Mod(b1, m))
				}
				if c.decide(c.mkLt(y.p)) {
					return nil
				}
				return bigZeroV
			}
			if r.Cmp(b1) == 0 {
				return bigC(new(big.Int).Mod(b1, m))
			}
			if yc := y.cst(); yc != nil {
				g := c.toGrp(bigC(r), m)
				if len(g.e) == 1 && c.atoms[g.e[0].a].isGen {
					e := c.grpExp(g, pconst(yc))
					return c.simplGrp(e)
				}
				z := new(big.Int).Exp(r, yc, m)
				if yc.Sign() < 0 && new(big.Int).ModInverse(r, m) == nil {
					return nil
				}
				return bigC(z)
			}
		} else if m.BitLen() <= 64 {
			// small modulus: repeated multiplication
			if yc := y.cst(); yc != nil && yc.Sign() >= 0 && yc.BitLen() <= 8 {
				return bigP(c.modOf(x.p.pow(int(yc.Int64())), m))
			}
			unsup("modular power of a symbolic integer with a small modulus")
		}
	}
	if x.g != nil && x.g.mod.Cmp(m) != 0 {
		unsup("group element raised modulo something else")
	}
	if yc := y.cst(); yc != nil && x.g == nil && yc.Sign() >= 0 {
		if yc.Sign() == 0 {
			return bigC(b1)
		}
		if yc.Cmp(b1) == 0 {
			return bigP(c.modOf(x.p, m))
		}
		if yc.BitLen() <= 6 && yc.Bit(0) == 0 && yc.Cmp(b2) != 0 {
			return &BigVal{g: c.grpExp(c.toGrp(bigP(x.p.pow(2)), m), pconst(new(big.Int).Rsh(yc, 1)))}
		}
		if yc.Cmp(b2) == 0 {
			g := c.toGrp(bigP(x.p.pow(2)), m)
			return &BigVal{g: &Grp{mod: m, red: true, e: g.e}}
		}
	}
	g := c.toGrp(x, m)
	if g == nil {
		return bigZeroV
	}
	return c.simplGrp(c.grpExp(g, y.p))
}

// simplGrp: the identity and small constant powers of the generator are plain constants.
func (c *Ctx) simplGrp(g *Grp) *BigVal {
	if !g.red {
		return &BigVal{g: g}
	}
	if len(g.e) == 0 {
		return bigC(b1)
	}
	if len(g.e) == 1 && c.atoms[g.e[0].a].isGen {
		if k := g.e[0].p.cst(); k != nil && k.CmpAbs(bi(64)) <= 0 {
			return bigC(new(big.Int).Exp(c.atoms[g.e[0].a].cst, k, g.mod))
		}
	}
	return &BigVal{g: g}
}

func (it *Interp) bigCmp(a, b *BigVal) V {
	c := it.c
	if a.g == nil && b.g == nil {
		d := a.p.sub(b.p)
		return it.mkLazy(c.mkLt(d), c.mkEq(d))
	}
	if a.k() == b.k() {
		return int64(0)
	}
	if a.g == nil {
		r := it.bigCmp(b, a)
		switch x := r.(type) {
		case int64:
			return -x
		case *lazyInt:
			if x.lt == nil {
				return x
			}
			return &lazyInt{lt: mkNot(mkOr(x.lt, x.eq)), eq: x.eq}
		}
	}
	if b.g == nil {
		if x := b.cst(); x != nil {
			if a.g.red && x.Cmp(a.g.mod) >= 0 {
				return int64(-1)
			}
			if x.Sign() <= 0 {
				return int64(1)
			}
			if x.Cmp(b1) == 0 && a.g.red {
				return it.mkLazy(FF, c.bigEq(a, b))
			}
		} else {
			lo, hi := c.bounds(b.p)
			if hi != nil && hi.Sign() <= 0 {
				return int64(1)
			}
			if lo != nil && a.g.red && lo.Cmp(a.g.mod) >= 0 {
				return int64(-1)
			}
		}
	}
	eq := c.bigEq(a, b)
	if eq == FT {
		return int64(0)
	}
	return &lazyInt{eq: eq}
}

func (it *Interp) mkLazy(lt, eq *Form) V {
	if eq == FT {
		return int64(0)
	}
	if lt == FT {
		return int64(-1)
	}
	if lt == FF && eq == FF {
		return int64(1)
	}
	return &lazyInt{lt: lt, eq: eq}
}

func (it *Interp) bigSign(a *BigVal) V {
	if a.g != nil {
		return int64(1)
	}
	lo, hi := it.c.bounds(a.p)
	switch {
	case lo != nil && lo.Sign() > 0:
		return int64(1)
	case hi != nil && hi.Sign() < 0:
		return int64(-1)
	}
	return it.mkLazy(it.c.mkLt(a.p), it.c.mkEq(a.p))
}

// bigAbs forks on the sign when it is not known.
func (it *Interp) bigAbs(a *BigVal) *BigVal {
	if a.g != nil {
		return a
	}
	lo, hi := it.c.bounds(a.p)
	if lo != nil && lo.Sign() >= 0 {
		return a
	}
	if hi != nil && hi.Sign() <= 0 {
		return bigP(a.p.neg())
	}
	if it.c.decide(it.c.mkLt(a.p)) {
		return bigP(a.p.neg())
	}
	return a
}

const wideBytes = 160 // nominal length of the encoding of an unbounded integer

func (it *Interp) bigBytes(a *BigVal) []V {
	if a.g != nil {
		if !a.g.red {
			unsup("bytes of an unreduced product")
		}
		if len(a.g.e) == 0 {
			return []V{int64(1)}
		}
		return it.c.tok("big", (a.g.mod.BitLen()+7)/8, a).bytes()
	}
	a = it.bigAbs(a)
	if x := a.cst(); x != nil {
		b := x.Bytes()
		r := make([]V, len(b))
		for i := range b {
			r[i] = int64(b[i])
		}
		return r
	}
	_, hi := it.c.bounds(a.p)
	if hi == nil {
		return it.c.tok("big", wideBytes, a).bytes()
	}
	n := (hi.BitLen() + 7) / 8
	if n <= 8 {
		for k := 0; k < n; k++ {
			if it.c.decide(it.c.mkLt(a.p.sub(pconst(new(big.Int).Lsh(b1, uint(8*k)))))) {
				if k == 0 {
					return []V{}
				}
				return it.smallBytes(a, k)
			}
		}
		return it.smallBytes(a, n)
	}
	return it.c.tok("big", n, a).bytes()
}

func (it *Interp) smallBytes(a *BigVal, n int) []V {
	if n == 1 {
		return []V{&SInt{a.p}}
	}
	return it.c.tok("big", n, a).bytes()
}

func (it *Interp) bigString(a *BigVal) V {
	if x := a.cst(); x != nil {
		return x.String()
	}
	return &SStr{it.c.tok("dec", 20, a).bytes()}
}

// divTrunc: quotient and remainder truncated towards zero, constant divisor.
func (it *Interp) divTrunc(a *BigVal, m *big.Int) (*Poly, *Poly) {
	if m.Sign() == 0 {
		it.runtimePanic("integer divide by zero")
	}
	p := it.intRep(a)
	am := new(big.Int).Abs(m)
	neg := false
	if lo, _ := it.c.bounds(p); lo == nil || lo.Sign() < 0 {
		if it.c.decide(it.c.mkLt(p)) {
			neg = true
			p = p.neg()
		}
	}
	q, r := it.c.divOf(p, am), it.c.modOf(p, am)
	if neg {
		q, r = q.neg(), r.neg()
	}
	if m.Sign() < 0 {
		q = q.neg()
	}
	return q, r
}

func (it *Interp) bigInverse(recv V, a *BigVal, n *big.Int) V {
	c := it.c
	if a.g != nil {
		if a.g.mod.Cmp(n) != 0 {
			unsup("inverse modulo something else")
		}
		return it.setBig(recv, c.simplGrp(c.grpExp(a.g, pint(-1))))
	}
	if x := a.cst(); x != nil {
		g := c.toGrp(a, n)
		if g != nil && len(g.e) == 1 && c.atoms[g.e[0].a].isGen {
			return it.setBig(recv, c.simplGrp(c.grpExp(g, pint(-1))))
		}
		z := new(big.Int).ModInverse(x, n)
		if z == nil {
			return (*V)(nil)
		}
		return it.setBig(recv, bigC(z))
	}
	if !c.isPrime(n) {
		unsup("inverse modulo a composite")
	}
	if c.decide(c.mkCong(a.p, n)) {
		return (*V)(nil)
	}
	return it.setBig(recv, bigP(c.invOf(a.p, n)))
}

var intrinsics = map[string]intrinsic{}

func reg(key string, f intrinsic) { intrinsics[key] = f }

func init() {
	m := func(name string, f func(it *Interp, a []V) V) {
		reg("(*math/big.Int)."+name, func(it *Interp, _ *frame, _ *ssa.Function, a []V) V { return f(it, a) })
	}
	tInt64 := types.Typ[types.Int64]
	reg("math/big.NewInt", func(it *Interp, _ *frame, _ *ssa.Function, a []V) V {
		return newBig(bigP(it.poly(a[0], tInt64)))
	})
	m("Set", func(it *Interp, a []V) V { return it.setBig(a[0], it.bigOf(a[1])) })
	m("SetInt64", func(it *Interp, a []V) V { return it.setBig(a[0], bigP(it.poly(a[1], tInt64))) })
	m("SetUint64", func(it *Interp, a []V) V { return it.setBig(a[0], bigP(it.poly(a[1], types.Typ[types.Uint64]))) })
	m("SetBytes", func(it *Interp, a []V) V {
		b := it.c.parseBytes(a[1].([]V))
		if b == nil {
			unsup("integer read from part of an encoding")
		}
		return it.setBig(a[0], b)
	})
	m("Add", func(it *Interp, a []V) V { return it.setBig(a[0], it.bigAdd(it.bigOf(a[1]), it.bigOf(a[2]), 1)) })
	m("Sub", func(it *Interp, a []V) V { return it.setBig(a[0], it.bigAdd(it.bigOf(a[1]), it.bigOf(a[2]), -1)) })
	m("Mul", func(it *Interp, a []V) V { return it.setBig(a[0], it.bigMul(it.bigOf(a[1]), it.bigOf(a[2]))) })
	m("Neg", func(it *Interp, a []V) V {
		return it.setBig(a[0], bigP(it.intRep(it.bigOf(a[1])).neg()))
	})
	m("Abs", func(it *Interp, a []V) V { return it.setBig(a[0], it.bigAbs(it.bigOf(a[1]))) })
	m("Mod", func(it *Interp, a []V) V {
		return it.setBig(a[0], it.bigMod(it.bigOf(a[1]), it.needConst(a[2], "modulus")))
	})
	m("Div", func(it *Interp, a []V) V {
		d := it.needConst(a[2], "divisor")
		if d.Sign() == 0 {
			it.runtimePanic("integer divide by zero")
		}
		q := it.c.divOf(it.intRep(it.bigOf(a[1])), new(big.Int).Abs(d))
		if d.Sign() < 0 {
			q = q.neg()
		}
		return it.setBig(a[0], bigP(q))
	})
	m("DivMod", func(it *Interp, a []V) V {
		d := it.needConst(a[2], "divisor")
		if d.Sign() == 0 {
			it.runtimePanic("integer divide by zero")
		}
		x := it.bigOf(a[1])
		q := it.c.divOf(it.intRep(x), new(big.Int).Abs(d))
		if d.Sign() < 0 {
			q = q.neg()
		}
		it.setBig(a[3], it.bigMod(x, d))
		it.setBig(a[0], bigP(q))
		return Tuple{a[0], a[3]}
	})
	m("Quo", func(it *Interp, a []V) V {
		q, _ := it.divTrunc(it.bigOf(a[1]), it.needConst(a[2], "divisor"))
		return it.setBig(a[0], bigP(q))
	})
	m("Rem", func(it *Interp, a []V) V {
		x, d := it.bigOf(a[1]), it.needConst(a[2], "divisor")
		if x.g != nil {
			return it.setBig(a[0], it.bigMod(x, d))
		}
		_, r := it.divTrunc(x, d)
		return it.setBig(a[0], bigP(r))
	})
	m("Exp", func(it *Interp, a []V) V {
		var md *big.Int
		if p, _ := a[3].(*V); p != nil {
			md = it.needConst(a[3], "modulus")
		}
		r := it.bigExp(it.bigOf(a[1]), it.bigOf(a[2]), md)
		if r == nil {
			return (*V)(nil)
		}
		return it.setBig(a[0], r)
	})
	m("ModInverse", func(it *Interp, a []V) V {
		return it.bigInverse(a[0], it.bigOf(a[1]), new(big.Int).Abs(it.needConst(a[2], "modulus")))
	})
	m("Cmp", func(it *Interp, a []V) V { return it.bigCmp(it.bigOf(a[0]), it.bigOf(a[1])) })
	m("CmpAbs", func(it *Interp, a []V) V {
		x, y := it.bigOf(a[0]), it.bigOf(a[1])
		return it.bigCmp(it.bigAbs(x), it.bigAbs(y))
	})
	m("Sign", func(it *Interp, a []V) V { return it.bigSign(it.bigOf(a[0])) })
	m("BitLen", func(it *Interp, a []V) V {
		x := it.bigOf(a[0])
		if c := x.cst(); c != nil {
			return int64(c.BitLen())
		}
		return &bitLen{it.intRep(x)}
	})
	m("Bit", func(it *Interp, a []V) V {
		x := it.bigOf(a[0])
		i := it.concInt(a[1], types.Typ[types.Int])
		if c := x.cst(); c != nil {
			return int64(c.Bit(int(i)))
		}
		return it.mkInt(it.c.modOf(it.c.divOf(it.intRep(x), new(big.Int).Lsh(b1, uint(i))), b2), types.Typ[types.Uint])
	})
	m("SetBit", func(it *Interp, a []V) V {
		x := it.needConst(a[1], "operand of SetBit")
		return it.setBig(a[0], bigC(new(big.Int).SetBit(x, int(it.concInt(a[2], types.Typ[types.Int])), uint(it.concInt(a[3], types.Typ[types.Uint])))))
	})
	m("Lsh", func(it *Interp, a []V) V {
		n := it.concInt(a[2], types.Typ[types.Uint])
		if n > 1<<14 {
			unsup("shift by %d", n)
		}
		return it.setBig(a[0], bigP(it.intRep(it.bigOf(a[1])).scale(new(big.Int).Lsh(b1, uint(n)))))
	})
	m("Rsh", func(it *Interp, a []V) V {
		n := it.concInt(a[2], types.Typ[types.Uint])
		return it.setBig(a[0], bigP(it.c.divOf(it.intRep(it.bigOf(a[1])), new(big.Int).Lsh(b1, uint(n)))))
	})
	m("Sqrt", func(it *Interp, a []V) V {
		p := it.intRep(it.bigOf(a[1]))
		if it.c.decide(it.c.mkLt(p)) {
			panic(targetPanic{Iface{types.Typ[types.String], "square root of negative number"}})
		}
		return it.setBig(a[0], bigP(it.c.sqrtOf(p)))
	})
	m("And", func(it *Interp, a []V) V {
		x, y := it.bigOf(a[1]), it.bigOf(a[2])
		if x.cst() != nil && y.cst() != nil {
			return it.setBig(a[0], bigC(new(big.Int).And(x.cst(), y.cst())))
		}
		if x.cst() != nil {
			x, y = y, x
		}
		if m := y.cst(); m != nil && m.Sign() >= 0 {
			n := new(big.Int).Add(m, b1)
			if n.BitLen()-1 == int(n.TrailingZeroBits()) {
				return it.setBig(a[0], bigP(it.c.modOf(it.intRep(x), n)))
			}
		}
		unsup("bitwise and of symbolic integers")
		return nil
	})
	for _, op := range []string{"Or", "Xor", "AndNot", "GCD", "Binomial", "ModSqrt", "Not", "MulRange", "QuoRem"} {
		op := op
		m(op, func(it *Interp, a []V) V {
			if op == "Or" || op == "Xor" {
				x, y := it.needConst(a[1], "operand"), it.needConst(a[2], "operand")
				if op == "Or" {
					return it.setBig(a[0], bigC(new(big.Int).Or(x, y)))
				}
				return it.setBig(a[0], bigC(new(big.Int).Xor(x, y)))
			}
			if op == "Not" {
				return it.setBig(a[0], bigP(it.intRep(it.bigOf(a[1])).neg().sub(pint(1))))
			}
			if op == "GCD" && isNil(a[1]) && isNil(a[2]) {
				x, y := it.needConst(a[3], "operand"), it.needConst(a[4], "operand")
				return it.setBig(a[0], bigC(new(big.Int).GCD(nil, nil, x, y)))
			}
			if op == "QuoRem" {
				x, y := newBig(it.bigOf(a[1])), newBig(it.bigOf(a[2]))
				intrinsics["(*math/big.Int).Quo"](it, nil, nil, []V{a[0], x, y})
				intrinsics["(*math/big.Int).Rem"](it, nil, nil, []V{a[3], x, y})
				return Tuple{a[0], a[3]}
			}
			if op == "Binomial" || op == "MulRange" {
				n, ok1 := a[1].(int64)
				k, ok2 := a[2].(int64)
				if ok1 && ok2 && op == "Binomial" {
					return it.setBig(a[0], bigC(new(big.Int).Binomial(n, k)))
				} else if ok1 && ok2 {
					return it.setBig(a[0], bigC(new(big.Int).MulRange(n, k)))
				}
			}
			if op == "AndNot" {
				return it.setBig(a[0], bigC(new(big.Int).AndNot(it.needConst(a[1], "operand"), it.needConst(a[2], "operand"))))
			}
			if op == "ModSqrt" {
				r := new(big.Int).ModSqrt(it.needConst(a[1], "operand"), it.needConst(a[2], "modulus"))
				if r == nil {
					return (*V)(nil)
				}
				return it.setBig(a[0], bigC(r))
			}
			unsup("big.Int.%s", op)
			return nil
		})
	}
	m("Int64", func(it *Interp, a []V) V { return it.mkInt(it.intRep(it.bigOf(a[0])), tInt64) })
	m("Uint64", func(it *Interp, a []V) V { return it.mkInt(it.intRep(it.bigOf(a[0])), types.Typ[types.Uint64]) })
	m("IsInt64", func(it *Interp, a []V) V {
		p := it.intRep(it.bigOf(a[0]))
		l := new(big.Int).Lsh(b1, 63)
		return formBool(mkAnd(it.c.mkLt(p.sub(pconst(l))), it.c.mkLe(p.neg().sub(pconst(l)))))
	})
	m("IsUint64", func(it *Interp, a []V) V {
		p := it.intRep(it.bigOf(a[0]))
		l := new(big.Int).Lsh(b1, 64)
		return formBool(mkAnd(it.c.mkLt(p.sub(pconst(l))), it.c.mkLe(p.neg())))
	})
	m("Bytes", func(it *Interp, a []V) V { return it.bigBytes(it.bigOf(a[0])) })
	m("FillBytes", func(it *Interp, a []V) V {
		x := it.bigOf(a[0])
		buf := a[1].([]V)
		b := it.bigBytes(x)
		if len(b) > len(buf) {
			if x.cst() != nil {
				panic(targetPanic{Iface{types.Typ[types.String], "math/big: buffer too small to fit value"}})
			}
			unsup("FillBytes of a value that may not fit")
		}
		for i := range buf {
			buf[i] = int64(0)
		}
		copy(buf[len(buf)-len(b):], b)
		return buf
	})
	str := func(it *Interp, a []V) V {
		p, _ := a[0].(*V)
		if p == nil {
			return "<nil>"
		}
		return it.bigString(it.bigOf(a[0]))
	}
	m("String", str)
	m("Text", func(it *Interp, a []V) V {
		b := it.concInt(a[1], types.Typ[types.Int])
		x := it.bigOf(a[0])
		if c := x.cst(); c != nil {
			return c.Text(int(b))
		}
		if b == 10 {
			return str(it, a)
		}
		return &SStr{it.c.tok("hex", 20, x).bytes()}
	})
	m("SetString", func(it *Interp, a []V) V {
		base := it.concInt(a[2], types.Typ[types.Int])
		if s, ok := a[1].(string); ok {
			x, ok := new(big.Int).SetString(s, int(base))
			if !ok {
				return Tuple{(*V)(nil), false}
			}
			return Tuple{it.setBig(a[0], bigC(x)), true}
		}
		b := strBytes(a[1])
		if t := tokAt(b, 0); t != nil && t.n == len(b) && (t.kind == "dec" && base == 10 || t.kind == "hex" && base == 16) {
			return Tuple{it.setBig(a[0], t.v), true}
		}
		unsup("integer parsed from a symbolic string")
		return nil
	})
	m("ProbablyPrime", func(it *Interp, a []V) V {
		x := it.bigOf(a[0]).cst()
		if x == nil {
			unsup("primality of a symbolic integer")
		}
		return it.c.isPrime(x)
	})
	m("TrailingZeroBits", func(it *Interp, a []V) V {
		return int64(it.needConst(a[0], "operand").TrailingZeroBits())
	})
	reg("math/big.Jacobi", func(it *Interp, _ *frame, _ *ssa.Function, a []V) V {
		return it.jacobi(it.bigOf(a[0]), it.needConst(a[1], "modulus"))
	})
}

// jacobi symbol of a modulo the odd number m.
func (it *Interp) jacobi(a *BigVal, m *big.Int) V {
	c := it.c
	if m.Bit(0) == 0 {
		panic(targetPanic{Iface{types.Typ[types.String], "big: invalid 2nd argument to Int.Jacobi: need odd integer"}})
	}
	if x := a.cst(); x != nil {
		return int64(big.Jacobi(x, m))
	}
	tint := types.Typ[types.Int]
	if a.g == nil {
		p := a.p
		// a residue modulo a multiple of m stands for its definition
		for n := 0; n < 8 && len(p.t) == 1 && p.t[0].c.Cmp(b1) == 0; n++ {
			vs, es := unpackMono(p.t[0].m)
			if len(vs) != 1 || es[0] != 1 {
				break
			}
			w := c.vars[vs[0]]
			if w.modP == nil || new(big.Int).Mod(w.modM, m).Sign() != 0 {
				break
			}
			p = w.modP
		}
		if len(p.t) == 1 && c.isSquare(p.t[0].c) {
			even := true
			_, es := unpackMono(p.t[0].m)
			for _, e := range es {
				even = even && e%2 == 0
			}
			if even { // a unit is assumed: being a multiple of a factor of m is negligible
				return int64(1)
			}
		}
		return it.mkInt(c.opaque("jacobi", a, bi(-1), bi(1), m), tint)
	}
	if new(big.Int).Mod(a.g.mod, m).Sign() != 0 {
		return it.mkInt(c.opaque("jacobi", a, bi(-1), bi(1), m), tint)
	}
	r := int64(1)
	for _, e := range a.g.e {
		at := c.atoms[e.a]
		if at.key[0] == 'q' || at.ord != nil && at.ord.Bit(0) == 1 {
			continue
		}
		even := true
		for _, t := range e.p.t {
			even = even && t.c.Bit(0) == 0
		}
		if even {
			continue
		}
		k := e.p.cst()
		if at.cst == nil || k == nil {
			return it.mkInt(c.opaque("jacobi", a, bi(-1), bi(1), m), tint)
		}
		r *= int64(big.Jacobi(at.cst, m))
	}
	return r
}

func (c *Ctx) isSquare(x *big.Int) bool {
	if x.Sign() < 0 {
		return false
	}
	r := new(big.Int).Sqrt(x)
	return r.Mul(r, r).Cmp(x) == 0
}
