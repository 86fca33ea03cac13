package main

// The harness interface (package verifsym) as seen by the engine.

import (
	"fmt"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

var symAPI = map[string]intrinsic{}

func (it *Interp) boundOf(v V) *big.Int {
	if isNil(v) {
		return nil
	}
	x := it.bigOf(v).cst()
	if x == nil {
		unsup("symbolic bound")
	}
	return x
}

func (it *Interp) nameOf(v V) string {
	s, ok := v.(string)
	if !ok {
		unsup("symbolic name")
	}
	return s
}

func init() {
	api := func(name string, f func(it *Interp, a []V) V) {
		symAPI[name] = func(it *Interp, _ *frame, _ *ssa.Function, a []V) V { return f(it, a) }
	}
	api("Int", func(it *Interp, a []V) V {
		lo, hi := a[1].(int64), a[2].(int64)
		if lo == hi {
			return lo
		}
		return &SInt{pvar(it.c.input("int", it.nameOf(a[0]), bi(lo), bi(hi)))}
	})
	api("Bool", func(it *Interp, a []V) V {
		v := it.c.input("int", it.nameOf(a[0]), b0, b1)
		return formBool(it.c.mkEq(pvar(v).sub(pint(1))))
	})
	api("Choose", func(it *Interp, a []V) V {
		n := it.nameOf(a[0])
		k := it.c.choose(int(a[1].(int64)), n)
		it.c.inputs = append(it.c.inputs, inputRec{n, "int", bigC(bi(int64(k)))})
		return int64(k)
	})
	api("Big", func(it *Interp, a []V) V {
		return newBig(bigP(pvar(it.c.input("big", it.nameOf(a[0]), it.boundOf(a[1]), it.boundOf(a[2])))))
	})
	api("AdvBig", func(it *Interp, a []V) V {
		v := it.c.input("big", it.nameOf(a[0]), it.boundOf(a[1]), it.boundOf(a[2]))
		v.adv = true
		return newBig(bigP(pvar(v)))
	})
	api("Rnd", func(it *Interp, a []V) V {
		v := it.c.input("big", it.nameOf(a[0]), it.boundOf(a[1]), it.boundOf(a[2]))
		v.rnd, v.revealed = true, it.c.revealNew
		return newBig(bigP(pvar(v)))
	})
	api("Reveal", func(it *Interp, a []V) V {
		b := it.bigOf(a[0])
		s := map[int]bool{}
		if b.p != nil {
			b.p.vars(s)
		} else {
			for _, x := range b.g.e {
				x.p.vars(s)
			}
		}
		for v := range s {
			it.c.vars[v].revealed = true
		}
		return nil
	})
	bytesIn := func(it *Interp, name string, n int) []V {
		r := make([]V, n)
		for i := range r {
			r[i] = &SInt{pvar(it.c.input("int", fmt.Sprintf("%s.%d", name, i), b0, bi(255)))}
		}
		return r
	}
	api("Bytes", func(it *Interp, a []V) V {
		return bytesIn(it, it.nameOf(a[0]), int(a[1].(int64)))
	})
	api("Str", func(it *Interp, a []V) V {
		return mkStr(bytesIn(it, it.nameOf(a[0]), int(a[1].(int64))))
	})
	api("Elem", func(it *Interp, a []V) V {
		mod := it.boundOf(a[1])
		n := it.nameOf(a[0])
		at := it.c.atom("h"+mod.Text(36)+":"+n, n, mod, it.c.groupOrder(mod), nil)
		return newBig(&BigVal{g: &Grp{mod: mod, red: true, e: []aexp{{at.id, pint(1)}}}})
	})
	api("Assume", func(it *Interp, a []V) V {
		switch x := a[0].(type) {
		case bool:
			if !x {
				panic(pathEnd{"assumption"})
			}
		default:
			f := it.c.norm(boolForm(x))
			it.c.assume(f)
			if it.c.feasible(f) == Unsat {
				panic(pathEnd{"assumption"})
			}
		}
		return nil
	})
	api("Assert", func(it *Interp, a []V) V {
		it.c.assertForm(it.nameOf(a[0]), boolForm(a[1]))
		return nil
	})
	api("Reach", func(it *Interp, a []V) V {
		it.c.reached[it.nameOf(a[0])] = true
		return nil
	})
	api("RevealDraws", func(it *Interp, a []V) V {
		it.c.revealNew = a[0].(bool)
		return nil
	})
	api("RevealPast", func(it *Interp, a []V) V {
		for _, v := range it.c.vars {
			if v != nil && v.rnd {
				v.revealed = true
			}
		}
		return nil
	})
	api("FixHash", func(it *Interp, a []V) V {
		it.c.fixHash = a[0].(bool)
		return nil
	})
	api("LastHash", func(it *Interp, a []V) V {
		if it.c.lastHash == nil {
			unsup("no hash query so far")
		}
		return newBig(bigP(it.c.lastHash))
	})
	api("interrupting", func(it *Interp, a []V) V {
		it.c.interrupting = a[0].(bool)
		return nil
	})
	api("FixDraws", func(it *Interp, a []V) V {
		it.c.fixDraws = a[0].(bool)
		return nil
	})
	api("Cover", func(it *Interp, a []V) V {
		ex := it.c.ex
		ex.mu.Lock()
		ex.covers[it.nameOf(a[0])] = true
		ex.mu.Unlock()
		return nil
	})
	// Possible: some values of the inputs and draws make the condition true.
	api("Possible", func(it *Interp, a []V) V {
		ex, l := it.c.ex, it.nameOf(a[0])
		ex.mu.Lock()
		ex.covers[l] = true
		ex.mu.Unlock()
		yes, ok := a[1].(bool)
		if !ok {
			f := it.c.norm(boolForm(a[1]))
			yes = f.op == fTrue || f.op != fFalse && it.c.feasible(f) != Unsat
		}
		if yes {
			it.c.reached[l] = true
		}
		return nil
	})
	api("Panics", func(it *Interp, a []V) (res V) {
		top, depth := it.top, it.depth
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch r.(type) {
			case targetPanic, exitPath:
				it.top, it.depth = top, depth
				res = true
				return
			}
			panic(r)
		}()
		it.call(it.top, a[0], nil, 0)
		return false
	})
	api("NewRun", func(it *Interp, a []V) V { it.c.run++; return nil })
	api("Rewind", func(it *Interp, a []V) V {
		c := it.c
		n := len(c.digests)
		if n == 0 {
			unsup("nothing to rewind to")
		}
		last := c.digests[n-1]
		c.forgot = &last
		kept := c.digests[:0:0]
		for _, d := range c.digests[:n-1] {
			if d.v != last.v {
				kept = append(kept, d)
			}
		}
		c.digests = kept
		c.forgotAt = len(kept)
		return nil
	})
	api("Forked", func(it *Interp, a []V) V {
		c := it.c
		if c.forgot == nil || len(c.digests) <= c.forgotAt {
			unsup("no challenge after rewinding")
		}
		d := c.digests[len(c.digests)-1]
		f := FF
		if d.alg == c.forgot.alg && len(d.data) == len(c.forgot.data) {
			f = c.norm(c.bytesEq(d.data, c.forgot.data))
		}
		c.assume(f)
		c.assume(mkNot(c.mkEq(d.v.sub(c.forgot.v))))
		return nil
	})
	api("Thorough", func(it *Interp, a []V) V { return it.c.opt.thorough })
	api("Sent", func(it *Interp, a []V) V { return int64(len(it.c.sentRecs)) })
	api("SentAddr", func(it *Interp, a []V) V { return it.c.sentRecs[a[0].(int64)].addr })
	api("SentData", func(it *Interp, a []V) V {
		d := it.c.sentRecs[a[0].(int64)].data
		return append([]V{}, d...)
	})
	api("ClearSent", func(it *Interp, a []V) V { it.c.sentRecs = nil; return nil })
	api("Stub", func(it *Interp, a []V) V {
		n := it.nameOf(a[0])
		i, ok := a[1].(Iface)
		if ok && i.t != nil {
			it.c.stubs[n] = i.v
		} else {
			delete(it.c.stubs, n)
		}
		return nil
	})
	api("AnyMapOrder", func(it *Interp, a []V) V { it.c.mapOrd = a[0].(bool); return nil })
	api("IsConcrete", func(it *Interp, a []V) V { return it.bigOf(a[0]).cst() != nil })
	api("Trace", func(it *Interp, a []V) V {
		if it.c.opt.verbose {
			x := a[1].(Iface)
			fmt.Printf("TRACE %s %s\n", it.nameOf(a[0]), it.show(x.v))
		}
		return nil
	})
}

func (it *Interp) show(v V) string {
	switch x := v.(type) {
	case *V:
		if x == nil {
			return "nil"
		}
		return "&" + it.show(*x)
	case *BigVal:
		return it.c.bigStr(x)
	case *SInt:
		return it.c.pstr(x.p)
	case *SBool:
		return it.c.fstr(x.f)
	case Struct:
		s := "{"
		for _, f := range x {
			s += it.show(f) + " "
		}
		return s + "}"
	case []V:
		s := "["
		for _, f := range x {
			s += it.show(f) + " "
		}
		return s + "]"
	case Iface:
		return it.show(x.v)
	case TB:
		return fmt.Sprintf("<%s@%d>", x.t.kind, x.i)
	}
	return fmt.Sprint(v)
}
