package main

import (
	"math/big"
	mrand "math/rand"

	"golang.org/x/tools/go/ssa"
)

// math/rand is what it is: with a seed, a fixed sequence for each seed, known to everybody. The generator of
// the package itself is seeded anew in each process: its values are arbitrary, and not known.
func init() {
	of := func(it *Interp, v V) *mrand.Rand {
		if o, ok := (*it.deref(v)).(*NativeObj); ok && o.kind == "mrand" {
			return o.data.(*mrand.Rand)
		}
		unsup("unknown generator of math/rand")
		return nil
	}
	num := func(v V) int64 {
		n, ok := v.(int64)
		if !ok {
			unsup("math/rand with a symbolic argument")
		}
		return n
	}
	both := func(name string, f func(it *Interp, r *mrand.Rand, a []V) V) {
		reg("(*math/rand.Rand)."+name, func(it *Interp, _ *frame, _ *ssa.Function, a []V) V { return f(it, of(it, a[0]), a[1:]) })
	}
	draw := func(it *Interp, n *big.Int) V {
		v := it.c.newVar("math/rand", b0, new(big.Int).Sub(n, b1))
		v.rnd, v.revealed = true, it.c.revealNew
		return &SInt{pvar(v)}
	}
	any := func(name string, bits uint) {
		reg("math/rand."+name, func(it *Interp, _ *frame, _ *ssa.Function, a []V) V { return draw(it, new(big.Int).Lsh(b1, bits)) })
	}
	any("Int", 63)
	any("Int31", 31)
	any("Int63", 63)
	any("Uint32", 32)
	any("Uint64", 64)
	perm := func(it *Interp, n int) []int {
		l := make([]int, n)
		for i := range l {
			l[i] = i
			j := it.c.choose(i+1, "math/rand")
			l[i], l[j] = l[j], l[i]
		}
		return l
	}
	reg("math/rand.Seed", func(it *Interp, _ *frame, _ *ssa.Function, a []V) V { return nil })
	reg("math/rand.Perm", func(it *Interp, _ *frame, _ *ssa.Function, a []V) V {
		var l []V
		for _, x := range perm(it, int(num(a[0]))) {
			l = append(l, int64(x))
		}
		return l
	})
	reg("math/rand.Shuffle", func(it *Interp, _ *frame, _ *ssa.Function, a []V) V {
		for i := int(num(a[0])) - 1; i > 0; i-- {
			it.call(it.top, a[1], []V{int64(i), int64(it.c.choose(i+1, "math/rand"))}, 0)
		}
		return nil
	})
	reg("math/rand.NewSource", func(it *Interp, _ *frame, fn *ssa.Function, a []V) V {
		return Iface{t: fn.Signature.Results().At(0).Type(), v: &NativeObj{kind: "mrandsrc", data: mrand.NewSource(num(a[0]))}}
	})
	reg("math/rand.New", func(it *Interp, _ *frame, _ *ssa.Function, a []V) V {
		o, ok := a[0].(Iface).v.(*NativeObj)
		if !ok || o.kind != "mrandsrc" {
			unsup("unknown source of math/rand")
		}
		return newCell(&NativeObj{kind: "mrand", data: mrand.New(o.data.(mrand.Source))})
	})
	both("Seed", func(it *Interp, r *mrand.Rand, a []V) V { r.Seed(num(a[0])); return nil })
	both("Int", func(it *Interp, r *mrand.Rand, a []V) V { return int64(r.Int()) })
	both("Int31", func(it *Interp, r *mrand.Rand, a []V) V { return int64(r.Int31()) })
	both("Int63", func(it *Interp, r *mrand.Rand, a []V) V { return r.Int63() })
	both("Uint32", func(it *Interp, r *mrand.Rand, a []V) V { return int64(r.Uint32()) })
	both("Uint64", func(it *Interp, r *mrand.Rand, a []V) V { return int64(r.Uint64()) })
	both("Float64", func(it *Interp, r *mrand.Rand, a []V) V { return r.Float64() })
	bounded := func(name string, f func(r *mrand.Rand, n int64) int64) {
		both(name, func(it *Interp, r *mrand.Rand, a []V) V {
			n := num(a[0])
			if n <= 0 {
				it.runtimePanic("invalid argument to " + name)
			}
			return f(r, n)
		})
		reg("math/rand."+name, func(it *Interp, _ *frame, _ *ssa.Function, a []V) V {
			n := num(a[0])
			if n <= 0 {
				it.runtimePanic("invalid argument to " + name)
			}
			return draw(it, bi(n))
		})
	}
	bounded("Intn", func(r *mrand.Rand, n int64) int64 { return int64(r.Intn(int(n))) })
	bounded("Int31n", func(r *mrand.Rand, n int64) int64 { return int64(r.Int31n(int32(n))) })
	bounded("Int63n", func(r *mrand.Rand, n int64) int64 { return r.Int63n(n) })
	both("Perm", func(it *Interp, r *mrand.Rand, a []V) V {
		var l []V
		for _, x := range r.Perm(int(num(a[0]))) {
			l = append(l, int64(x))
		}
		return l
	})
	both("Shuffle", func(it *Interp, r *mrand.Rand, a []V) V {
		r.Shuffle(int(num(a[0])), func(i, j int) { it.call(it.top, a[1], []V{int64(i), int64(j)}, 0) })
		return nil
	})
	both("Read", func(it *Interp, r *mrand.Rand, a []V) V {
		l := a[0].([]V)
		b := make([]byte, len(l))
		r.Read(b)
		for i := range l {
			l[i] = int64(b[i])
		}
		return Tuple{int64(len(l)), nilErr}
	})
	reg("(*math/big.Int).Rand", func(it *Interp, _ *frame, _ *ssa.Function, a []V) V {
		n := it.needConst(a[2], "bound")
		return it.setBig(a[0], bigC(bi(0).Rand(of(it, a[1]), n)))
	})
}
