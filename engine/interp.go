package main

// Symbolic interpreter for Go SSA.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Interp struct {
	c                 *Ctx
	P                 *Program
	globals           map[*ssa.Global]*V
	inited            map[*ssa.Package]bool
	depth             int
	top               *frame
	cur               *proc // nil: the goroutine of the check
	failAt, failStack string
}

// MapV is an insertion-ordered map.
type MapV struct {
	keys []V
	vals []V
	idx  map[string]int // canonical key -> position (concrete keys only)
	kt   types.Type
	sym  bool
}

type mapIter struct {
	m    *MapV
	keys []V
	i    int
}

type strIter struct {
	s string
	i int
}

type symStrIter struct {
	b []V
	i int
}

type targetPanic struct{ v V }

type exitPath struct{ why string }

// NativeObj is an object implemented by the engine.
type NativeObj struct {
	kind string
	data any
	t    types.Type
}

type lazyInt struct { // value in {-1,0,1}
	lt, eq *Form
}

type bitLen struct{ p *Poly }

type symFloat struct {
	p    *Poly
	sqrt bool // value is the real square root of p
}

type deferred struct {
	fn   V
	args []V
	in   *ssa.Defer
	tail *deferred
}

type frame struct {
	it        *Interp
	caller    *frame
	fn        *ssa.Function
	info      *fnInfo
	env       []V
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    *deferred
	result    V
	panicking bool
	panicV    any
	recovered bool
}

type fnInfo struct {
	slot map[ssa.Value]int
	n    int
}

var fnInfos sync.Map

func infoOf(fn *ssa.Function) *fnInfo {
	if x, ok := fnInfos.Load(fn); ok {
		return x.(*fnInfo)
	}
	fi := &fnInfo{slot: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		fi.slot[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	for _, l := range fn.Locals {
		if _, ok := fi.slot[l]; !ok {
			add(l)
		}
	}
	fnInfos.Store(fn, fi)
	return fi
}

func isBigInt(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" && n.Obj().Name() == "Int"
}

func (it *Interp) zero(t types.Type) V {
	if isBigInt(t) {
		return bigZeroV
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		}
		return nil
	case *types.Pointer:
		return (*V)(nil)
	case *types.Slice:
		return []V(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = it.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		if n > 1<<16 {
			unsup("array of %d elements", n)
		}
		a := make(Arr, n)
		for i := range a {
			a[i] = it.zero(u.Elem())
		}
		return a
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = it.zero(u.At(i).Type())
		}
		return tp
	}
	return nil
}

func copyV(v V) V {
	switch x := v.(type) {
	case Struct:
		r := make(Struct, len(x))
		for i := range x {
			r[i] = copyV(x[i])
		}
		return r
	case Arr:
		r := make(Arr, len(x))
		for i := range x {
			r[i] = copyV(x[i])
		}
		return r
	}
	return v
}

func storeV(p *V, v V) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(x) {
			for i := range x {
				storeV(&d[i], x[i])
			}
			return
		}
	case Arr:
		if d, ok := (*p).(Arr); ok && len(d) == len(x) {
			for i := range x {
				storeV(&d[i], x[i])
			}
			return
		}
	}
	*p = copyV(v)
}

func (it *Interp) runtimePanic(msg string) {
	panic(targetPanic{Iface{types.Typ[types.String], "runtime error: " + msg}})
}

func (it *Interp) deref(v V) *V {
	p, ok := v.(*V)
	if !ok {
		if v == nil {
			it.runtimePanic("invalid memory address or nil pointer dereference")
		}
		panic(fmt.Sprintf("deref of %T", v))
	}
	if p == nil {
		it.runtimePanic("invalid memory address or nil pointer dereference")
	}
	return p
}

func (fr *frame) get(v ssa.Value) V {
	switch x := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		return fr.it.constV(x)
	case *ssa.Function:
		return x
	case *ssa.Builtin:
		return x
	case *ssa.Global:
		return fr.it.global(x)
	}
	i, ok := fr.info.slot[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %s in %s", v, fr.fn))
	}
	return fr.env[i]
}

func (fr *frame) set(v ssa.Value, x V) { fr.env[fr.info.slot[v]] = x }

func (it *Interp) constV(c *ssa.Const) V {
	if c.Value == nil {
		return it.zero(c.Type())
	}
	t, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		if _, isI := c.Type().Underlying().(*types.Interface); isI {
			unsup("constant of interface type")
		}
		// type parameter instantiated
		unsup("constant %s", c)
	}
	switch {
	case t.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case t.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		n, _ := constant.Int64Val(c.Value)
		return string(rune(n))
	case t.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return f
	case t.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		if n, ok := constant.Int64Val(v); ok {
			return n
		}
		n, _ := constant.Uint64Val(v)
		return int64(n)
	}
	unsup("constant %s", c)
	return nil
}

func (it *Interp) global(g *ssa.Global) *V {
	if p, ok := it.globals[g]; ok {
		return p
	}
	it.initPkg(g.Pkg)
	if p, ok := it.globals[g]; ok {
		return p
	}
	p := new(V)
	*p = it.zero(g.Type().(*types.Pointer).Elem())
	if v, ok := it.nativeGlobal(g); ok {
		*p = v
	}
	it.globals[g] = p
	return p
}

func (it *Interp) initPkg(p *ssa.Package) {
	if p == nil || it.inited[p] {
		return
	}
	it.inited[p] = true
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, done := it.globals[g]; !done {
				c := new(V)
				*c = it.zero(g.Type().(*types.Pointer).Elem())
				if v, ok := it.nativeGlobal(g); ok {
					*c = v
				}
				it.globals[g] = c
			}
		}
	}
	init := p.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	if !it.P.own(p.Pkg.Path()) && !strings.HasPrefix(p.Pkg.Path(), dedis) {
		// library initialisers: best effort
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(Unsup); ok {
						it.c.note("initialiser of " + p.Pkg.Path() + " only partly executed")
						return
					}
					panic(r)
				}
			}()
			it.callSSA(nil, init, nil, nil)
		}()
		return
	}
	it.callSSA(nil, init, nil, nil)
}

// ---------------------------------------------------------------- calls

func (it *Interp) call(caller *frame, fn V, args []V, pos token.Pos) V {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			it.runtimePanic("call of nil function")
		}
		return it.callFn(caller, f, args, nil)
	case *Closure:
		return it.callFn(caller, f.fn.(*ssa.Function), args, f.env)
	case NativeFn:
		return f.f(it, args)
	case *ssa.Builtin:
		return it.builtin(caller, f, args)
	case nil:
		it.runtimePanic("invalid memory address or nil pointer dereference (nil function)")
	}
	panic(fmt.Sprintf("call of %T", fn))
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (it *Interp) callFn(caller *frame, fn *ssa.Function, args []V, env []V) V {
	key := fnKey(fn)
	if len(it.c.stubs) > 0 {
		if s, ok := it.c.stubs[key]; ok && s != nil {
			if cl, isCl := s.(*Closure); !isCl || cl.fn.(*ssa.Function) != fn {
				return it.call(caller, s, args, token.NoPos)
			}
		}
	}
	if in, ok := intrinsics[key]; ok {
		return in(it, caller, fn, args)
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == it.P.symPkg() && fn.Parent() == nil && fn.Signature.Recv() == nil && fn.Name() != "init" {
		if h, ok := symAPI[fn.Name()]; ok {
			return h(it, caller, fn, args)
		}
	}
	if fn.Blocks == nil {
		if fn.Name() == "init" && fn.Signature.Recv() == nil {
			return nil
		}
		unsup("external function %s", key)
	}
	if fn.Name() == "init" && fn.Synthetic != "" && fn.Parent() == nil && caller != nil {
		return nil // package initialisers of imports run on demand
	}
	return it.callSSA(caller, fn, args, env)
}

func (it *Interp) callSSA(caller *frame, fn *ssa.Function, args []V, env []V) V {
	it.depth++
	defer func() { it.depth-- }()
	if it.depth > 400 {
		unsup("call depth over 400 in %s", fn)
	}
	it.c.ex.noteFn(fn)
	fi := infoOf(fn)
	fr := &frame{it: it, caller: caller, fn: fn, info: fi, env: make([]V, fi.n)}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[fi.slot[p]] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		fr.env[fi.slot[p]] = env[i]
	}
	for _, l := range fn.Locals {
		p := new(V)
		*p = it.zero(l.Type().Underlying().(*types.Pointer).Elem())
		fr.env[fi.slot[l]] = p
	}
	fr.block = fn.Blocks[0]
	prevTop := it.top
	it.top = fr
	defer func() { it.top = prevTop }()
	for fr.block != nil {
		fr.run()
	}
	return fr.result
}

func (fr *frame) run() {
	defer func() {
		if fr.block == nil {
			return
		}
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(targetPanic)
		if !ok {
			fr.it.noteFail(fr, r)
			panic(r)
		}
		fr.it.top = fr
		fr.panicking = true
		fr.panicV = tp
		fr.runDefers()
		fr.block = fr.fn.Recover
		fr.prev = nil
		if fr.block == nil {
			// recovered without named results
			fr.result = fr.zeroResult()
		}
	}()
	for {
		b := fr.block
		for _, in := range b.Instrs {
			fr.it.c.steps++
			if fr.it.c.steps > fr.it.c.opt.maxSteps {
				unsup("step limit in %s", fr.fn)
			}
			switch fr.exec(in) {
			case 1: // return
				fr.block = nil
				return
			case 2: // jump
				goto next
			}
		}
	next:
		if fr.it.c.steps&0xfff == 0 && fr.it.c.expired() {
			unsup("time budget exhausted")
		}
	}
}

func (fr *frame) zeroResult() V {
	res := fr.fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return fr.it.zero(res.At(0).Type())
	}
	t := make(Tuple, res.Len())
	for i := range t {
		t[i] = fr.it.zero(res.At(i).Type())
	}
	return t
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			if r == nil {
				return
			}
			if tp, is := r.(targetPanic); is {
				fr.panicking = true
				fr.panicV = tp
			} else {
				panic(r)
			}
		}
	}()
	fr.it.call(fr, d.fn, d.args, token.NoPos)
	ok = true
}

func (fr *frame) runDefers() {
	for d := fr.defers; d != nil; d = d.tail {
		fr.defers = d.tail
		fr.runDefer(d)
	}
	fr.defers = nil
	if fr.panicking {
		panic(fr.panicV)
	}
}

func (fr *frame) prepareCall(c *ssa.CallCommon) (V, []V) {
	v := fr.get(c.Value)
	var args []V
	if c.Method == nil {
		for _, a := range c.Args {
			args = append(args, fr.get(a))
		}
		return v, args
	}
	recv, ok := v.(Iface)
	if !ok {
		panic(fmt.Sprintf("invoke on %T", v))
	}
	if recv.t == nil {
		fr.it.runtimePanic("invalid memory address or nil pointer dereference (method " + c.Method.Name() + " on nil interface)")
	}
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	return fr.it.method(recv, c.Method), append([]V{recv.v}, args...)
}

// method resolves an interface method.
func (it *Interp) method(recv Iface, m *types.Func) V {
	if o, ok := recv.v.(*NativeObj); ok {
		name := m.Name()
		return NativeFn{o.kind + "." + name, func(it *Interp, args []V) V { return it.nativeMethod(o, name, args[1:]) }}
	}
	if p, ok := recv.v.(*V); ok && p != nil {
		if o, ok := (*p).(*NativeObj); ok {
			name := m.Name()
			return NativeFn{o.kind + "." + name, func(it *Interp, args []V) V { return it.nativeMethod(o, name, args[1:]) }}
		}
	}
	fn := it.P.lookupMethod(recv.t, m)
	if fn == nil {
		unsup("method %s of %s", m.Name(), recv.t)
	}
	return fn
}

func (it *Interp) invoke(recv Iface, name string, args ...V) V {
	if recv.t == nil {
		it.runtimePanic("invalid memory address or nil pointer dereference (method " + name + " on nil interface)")
	}
	if o, ok := recv.v.(*NativeObj); ok {
		return it.nativeMethod(o, name, args)
	}
	ms := it.P.methodByName(recv.t, name)
	if ms == nil {
		unsup("method %s of %s", name, recv.t)
	}
	return it.callFn(it.top, ms, append([]V{recv.v}, args...), nil)
}

func (fr *frame) exec(in ssa.Instruction) int {
	it := fr.it
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.set(x, it.unop(x, fr.get(x.X)))
	case *ssa.BinOp:
		fr.set(x, it.binop(x.Op, x.X.Type(), x.Y.Type(), fr.get(x.X), fr.get(x.Y)))
	case *ssa.Call:
		fn, args := fr.prepareCall(&x.Call)
		fr.set(x, it.call(fr, fn, args, x.Pos()))
	case *ssa.ChangeInterface:
		fr.set(x, fr.get(x.X))
	case *ssa.ChangeType:
		fr.set(x, fr.get(x.X))
	case *ssa.MultiConvert:
		fr.set(x, it.convert(x.X.Type(), x.Type(), fr.get(x.X)))
	case *ssa.Convert:
		fr.set(x, it.convert(x.X.Type(), x.Type(), fr.get(x.X)))
	case *ssa.SliceToArrayPointer:
		unsup("slice to array pointer conversion")
	case *ssa.MakeInterface:
		fr.set(x, Iface{x.X.Type(), fr.get(x.X)})
	case *ssa.Extract:
		fr.set(x, fr.get(x.Tuple).(Tuple)[x.Index])
	case *ssa.Slice:
		fr.set(x, it.slice(x, fr.get(x.X), fr.get(x.Low), fr.get(x.High), fr.get(x.Max)))
	case *ssa.Return:
		switch len(x.Results) {
		case 0:
		case 1:
			fr.result = fr.get(x.Results[0])
		default:
			t := make(Tuple, len(x.Results))
			for i, r := range x.Results {
				t[i] = fr.get(r)
			}
			fr.result = t
		}
		return 1
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		panic(targetPanic{fr.get(x.X)})
	case *ssa.MakeChan:
		fr.set(x, &chanV{elem: x.Type().Underlying().(*types.Chan).Elem(), cap: int(it.concInt(fr.get(x.Size), x.Size.Type()))})
	case *ssa.Send:
		it.send(asChan(fr.get(x.Chan)), fr.get(x.X))
	case *ssa.Select:
		fr.set(x, fr.selectStmt(x))
	case *ssa.Go:
		fn, args := fr.prepareCall(&x.Call)
		it.spawn(false, func() { it.call(nil, fn, args, x.Pos()) })
	case *ssa.Store:
		storeV(it.deref(fr.get(x.Addr)), fr.get(x.Val))
	case *ssa.If:
		s := 1
		if it.truth(fr.get(x.Cond)) {
			s = 0
		}
		fr.prev, fr.block = fr.block, fr.block.Succs[s]
		fr.phis()
		return 2
	case *ssa.Jump:
		fr.prev, fr.block = fr.block, fr.block.Succs[0]
		fr.phis()
		return 2
	case *ssa.Phi:
		// handled on entry
	case *ssa.Defer:
		fn, args := fr.prepareCall(&x.Call)
		fr.defers = &deferred{fn, args, x, fr.defers}
	case *ssa.Alloc:
		if x.Heap {
			p := new(V)
			*p = it.zero(x.Type().Underlying().(*types.Pointer).Elem())
			fr.set(x, p)
		} else {
			// reuse of the local's cell would alias earlier iterations only if it escaped; a fresh one is safe
			p := new(V)
			*p = it.zero(x.Type().Underlying().(*types.Pointer).Elem())
			fr.set(x, p)
		}
	case *ssa.MakeSlice:
		n := it.concInt(fr.get(x.Len), x.Len.Type())
		cp := it.concInt(fr.get(x.Cap), x.Cap.Type())
		if n < 0 || cp < n {
			it.runtimePanic("makeslice: len out of range")
		}
		if cp > 1<<20 {
			unsup("slice of %d elements", cp)
		}
		s := make([]V, cp)
		et := x.Type().Underlying().(*types.Slice).Elem()
		for i := range s {
			s[i] = it.zero(et)
		}
		fr.set(x, s[:n])
	case *ssa.MakeMap:
		fr.set(x, &MapV{idx: map[string]int{}, kt: x.Type().Underlying().(*types.Map).Key()})
	case *ssa.Range:
		fr.set(x, it.rangeIter(fr.get(x.X)))
	case *ssa.Next:
		fr.set(x, it.next(x, fr.get(x.Iter)))
	case *ssa.FieldAddr:
		p := it.deref(fr.get(x.X))
		s, ok := (*p).(Struct)
		if !ok {
			if _, isN := (*p).(*NativeObj); isN {
				fr.set(x, p)
				return 0
			}
			unsup("field of a native object (%s, %T)", x.X.Type(), *p)
		}
		fr.set(x, &s[x.Field])
	case *ssa.Field:
		s, ok := fr.get(x.X).(Struct)
		if !ok {
			unsup("field of a native value (%s)", x.X.Type())
		}
		fr.set(x, s[x.Field])
	case *ssa.IndexAddr:
		v := fr.get(x.X)
		idx := fr.get(x.Index)
		switch s := v.(type) {
		case []V:
			i := it.index(idx, x.Index.Type(), len(s))
			fr.set(x, &s[i])
		case *V:
			a := (*it.deref(s)).(Arr)
			i := it.index(idx, x.Index.Type(), len(a))
			fr.set(x, &a[i])
		default:
			panic(fmt.Sprintf("IndexAddr %T", v))
		}
	case *ssa.Index:
		v := fr.get(x.X)
		idx := fr.get(x.Index)
		switch s := v.(type) {
		case Arr:
			fr.set(x, s[it.index(idx, x.Index.Type(), len(s))])
		default:
			b := strBytes(v)
			fr.set(x, b[it.index(idx, x.Index.Type(), len(b))])
		}
	case *ssa.Lookup:
		fr.set(x, it.lookup(x, fr.get(x.X), fr.get(x.Index)))
	case *ssa.MapUpdate:
		m := fr.get(x.Map).(*MapV)
		if m == nil {
			panic(targetPanic{Iface{types.Typ[types.String], "assignment to entry in nil map"}})
		}
		it.mapSet(m, fr.get(x.Key), fr.get(x.Value))
	case *ssa.TypeAssert:
		fr.set(x, it.typeAssert(x, fr.get(x.X).(Iface)))
	case *ssa.MakeClosure:
		var env []V
		for _, b := range x.Bindings {
			env = append(env, fr.get(b))
		}
		fr.set(x, &Closure{x.Fn.(*ssa.Function), env})
	default:
		unsup("instruction %T", in)
	}
	return 0
}

func (fr *frame) phis() {
	var vals []V
	var ps []*ssa.Phi
	for _, in := range fr.block.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range fr.block.Preds {
			if pr == fr.prev {
				vals = append(vals, fr.get(p.Edges[i]))
				ps = append(ps, p)
				break
			}
		}
	}
	for i, p := range ps {
		fr.set(p, vals[i])
	}
}

// ---------------------------------------------------------------- scalars

func intInfo(t types.Type) (bits int, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, true
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	}
	return 64, true
}

func wrapInt(x int64, bits int, signed bool) int64 {
	switch bits {
	case 8:
		if signed {
			return int64(int8(x))
		}
		return int64(uint8(x))
	case 16:
		if signed {
			return int64(int16(x))
		}
		return int64(uint16(x))
	case 32:
		if signed {
			return int64(int32(x))
		}
		return int64(uint32(x))
	}
	return x
}

// truth makes a boolean concrete by branching.
func (it *Interp) truth(v V) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *SBool:
		return it.c.decide(x.f)
	}
	panic(fmt.Sprintf("truth of %T", v))
}

func boolForm(v V) *Form {
	switch x := v.(type) {
	case bool:
		if x {
			return FT
		}
		return FF
	case *SBool:
		return x.f
	}
	panic(fmt.Sprintf("boolForm %T", v))
}

func formBool(f *Form) V {
	switch f {
	case FT:
		return true
	case FF:
		return false
	}
	if f.op == fTrue {
		return true
	}
	if f.op == fFalse {
		return false
	}
	return &SBool{f}
}

// poly gives the mathematical value of an integer value of type t.
func (it *Interp) poly(v V, t types.Type) *Poly {
	switch x := v.(type) {
	case int64:
		_, signed := intInfo(t)
		if !signed && x < 0 {
			return pconst(new(big.Int).SetUint64(uint64(x)))
		}
		return pint(x)
	case *SInt:
		return x.p
	case *lazyInt:
		return pint(it.forceCmp(x))
	case *bitLen:
		return pint(it.forceBitLen(x))
	case TB:
		return it.c.byteOf(x)
	}
	panic(fmt.Sprintf("poly of %T", v))
}

// byteOf expands one byte of an integer encoding.
func (c *Ctx) byteOf(b TB) *Poly {
	if b.t.kind != "big" || b.t.v.p == nil {
		unsup("arithmetic on a byte of an encoding")
	}
	p := b.t.v.p
	sh := new(big.Int).Lsh(b1, uint(8*(b.t.n-1-b.i)))
	return c.modOf(c.divOf(p, sh), bi(256))
}

func (it *Interp) forceCmp(x *lazyInt) int64 {
	if it.c.decide(x.eq) {
		return 0
	}
	if x.lt == nil {
		unsup("order of representatives of group elements")
	}
	if it.c.decide(x.lt) {
		return -1
	}
	return 1
}

func (it *Interp) forceBitLen(x *bitLen) int64 {
	lo, hi := it.c.bounds(x.p)
	if lo == nil || hi == nil {
		unsup("bit length of an unbounded value")
	}
	m := hi
	if new(big.Int).Neg(lo).Cmp(hi) > 0 {
		m = new(big.Int).Neg(lo)
	}
	if m.BitLen() > 64 {
		unsup("bit length of a wide symbolic value")
	}
	for n := 0; n < m.BitLen(); n++ {
		if it.c.decide(bitLenLe(it.c, x.p, n)) {
			return int64(n)
		}
	}
	return int64(m.BitLen())
}

func bitLenLe(c *Ctx, p *Poly, n int) *Form {
	if n < 0 {
		return FF
	}
	b := pconst(new(big.Int).Lsh(b1, uint(n)))
	return mkAnd(c.mkLt(p.sub(b)), c.mkLt(p.neg().sub(b)))
}

func (it *Interp) mkInt(p *Poly, t types.Type) V {
	bits, signed := intInfo(t)
	if x := p.cst(); x != nil {
		y := new(big.Int).And(x, new(big.Int).SetUint64(math.MaxUint64)) // two's complement
		return wrapInt(int64(y.Uint64()), bits, signed)
	}
	lo, hi := it.c.bounds(p)
	var tl, th *big.Int
	if signed {
		tl = new(big.Int).Neg(new(big.Int).Lsh(b1, uint(bits-1)))
		th = new(big.Int).Sub(new(big.Int).Lsh(b1, uint(bits-1)), b1)
	} else {
		tl = new(big.Int)
		th = new(big.Int).Sub(new(big.Int).Lsh(b1, uint(bits)), b1)
	}
	if lo != nil && hi != nil && lo.Cmp(tl) >= 0 && hi.Cmp(th) <= 0 {
		return &SInt{p}
	}
	m := new(big.Int).Lsh(b1, uint(bits))
	r := it.c.modOf(p.sub(pconst(tl)), m).add(pconst(tl))
	if x := r.cst(); x != nil {
		return it.mkInt(r, t)
	}
	return &SInt{r}
}

func (it *Interp) concInt(v V, t types.Type) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case nil:
		return 0
	}
	p := it.poly(v, t)
	return it.c.concretise(p, 600).Int64()
}

func (it *Interp) index(v V, t types.Type, n int) int {
	if x, ok := v.(int64); ok {
		if x < 0 || x >= int64(n) {
			it.runtimePanic(fmt.Sprintf("index out of range [%d] with length %d", x, n))
		}
		return int(x)
	}
	p := it.poly(v, t)
	if it.c.decide(mkOr(it.c.mkLt(p), it.c.mkLe(pint(int64(n)).sub(p)))) {
		it.runtimePanic("index out of range (symbolic)")
	}
	for i := 0; i < n-1; i++ {
		if it.c.decide(it.c.mkEq(p.sub(pint(int64(i))))) {
			return i
		}
	}
	return n - 1
}

func (it *Interp) unop(x *ssa.UnOp, v V) V {
	switch x.Op {
	case token.MUL:
		p := it.deref(v)
		if o, ok := (*p).(*NativeObj); ok {
			return o
		}
		return copyV(*p)
	case token.ARROW:
		r, ok := it.recv(asChan(v))
		if x.CommaOk {
			return Tuple{r, ok}
		}
		return r
	case token.NOT:
		return formBool(mkNot(boolForm(v)))
	case token.SUB:
		switch y := v.(type) {
		case int64:
			b, s := intInfo(x.Type())
			return wrapInt(-y, b, s)
		case float64:
			return -y
		case *lazyInt:
			if y.lt == nil {
				return y
			}
			return &lazyInt{lt: mkNot(mkOr(y.lt, y.eq)), eq: y.eq}
		}
		return it.mkInt(it.poly(v, x.X.Type()).neg(), x.Type())
	case token.XOR:
		b, s := intInfo(x.Type())
		if y, ok := v.(int64); ok {
			return wrapInt(^y, b, s)
		}
		p := it.poly(v, x.X.Type())
		if s {
			return it.mkInt(p.neg().sub(pint(1)), x.Type())
		}
		return it.mkInt(pconst(new(big.Int).Sub(new(big.Int).Lsh(b1, uint(b)), b1)).sub(p), x.Type())
	}
	unsup("operator %s", x.Op)
	return nil
}

func (it *Interp) binop(op token.Token, tx, ty types.Type, x, y V) V {
	switch op {
	case token.EQL:
		return formBool(it.eqV(tx, x, y))
	case token.NEQ:
		return formBool(mkNot(it.eqV(tx, x, y)))
	}
	switch a := x.(type) {
	case float64:
		b, ok := y.(float64)
		if !ok {
			unsup("floating-point arithmetic on symbolic values")
		}
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	case *symFloat:
		unsup("floating-point arithmetic on symbolic values")
	case string, *SStr:
		switch op {
		case token.ADD:
			if s, ok := x.(string); ok {
				if t, ok := y.(string); ok {
					return s + t
				}
			}
			return mkStr(append(append([]V(nil), strBytes(x)...), strBytes(y)...))
		}
		s, ok1 := x.(string)
		t, ok2 := y.(string)
		if !ok1 || !ok2 {
			unsup("ordering of symbolic strings")
		}
		switch op {
		case token.LSS:
			return s < t
		case token.LEQ:
			return s <= t
		case token.GTR:
			return s > t
		case token.GEQ:
			return s >= t
		}
	}
	a, ok1 := x.(int64)
	b, ok2 := y.(int64)
	bits, signed := intInfo(tx)
	if ok1 && ok2 {
		return it.intOp(op, a, b, bits, signed, ty)
	}
	// lazy comparisons
	if l, ok := x.(*lazyInt); ok && ok2 {
		if f := lazyCmp(op, l, b); f != nil {
			return formBool(f)
		}
	}
	if l, ok := y.(*lazyInt); ok && ok1 {
		if f := lazyCmp(flip(op), l, a); f != nil {
			return formBool(f)
		}
	}
	if l, ok := x.(*bitLen); ok && ok2 {
		if f := bitCmp(it.c, op, l, b); f != nil {
			return formBool(f)
		}
	}
	if l, ok := y.(*bitLen); ok && ok1 {
		if f := bitCmp(it.c, flip(op), l, a); f != nil {
			return formBool(f)
		}
	}
	p, q := it.poly(x, tx), it.poly(y, ty)
	c := it.c
	switch op {
	case token.ADD:
		return it.mkInt(p.add(q), tx)
	case token.SUB:
		return it.mkInt(p.sub(q), tx)
	case token.MUL:
		return it.mkInt(p.mul(q), tx)
	case token.LSS:
		return formBool(c.mkLt(p.sub(q)))
	case token.LEQ:
		return formBool(c.mkLe(p.sub(q)))
	case token.GTR:
		return formBool(c.mkLt(q.sub(p)))
	case token.GEQ:
		return formBool(c.mkLe(q.sub(p)))
	case token.QUO, token.REM:
		d := q.cst()
		if d == nil {
			d = c.concretise(q, 64)
		}
		if d.Sign() == 0 {
			it.runtimePanic("integer divide by zero")
		}
		ad := new(big.Int).Abs(d)
		// truncated division
		neg := false
		if lo, _ := c.bounds(p); lo == nil || lo.Sign() < 0 {
			if c.decide(c.mkLt(p)) {
				neg = true
			}
		}
		n := p
		if neg {
			n = p.neg()
		}
		if op == token.REM {
			r := c.modOf(n, ad)
			if neg {
				r = r.neg()
			}
			return it.mkInt(r, tx)
		}
		r := c.divOf(n, ad)
		if neg != (d.Sign() < 0) {
			r = r.neg()
		}
		return it.mkInt(r, tx)
	case token.SHL:
		s := it.concInt(y, ty)
		if s >= int64(bits) {
			return int64(0)
		}
		return it.mkInt(p.scale(new(big.Int).Lsh(b1, uint(s))), tx)
	case token.SHR:
		s := it.concInt(y, ty)
		if s > 200 {
			s = 200
		}
		return it.mkInt(c.divOf(p, new(big.Int).Lsh(b1, uint(s))), tx)
	case token.AND:
		if m := q.cst(); m != nil || p.cst() != nil {
			if m == nil {
				p, q = q, p
				m = q.cst()
			}
			m = new(big.Int).And(m, new(big.Int).Sub(new(big.Int).Lsh(b1, uint(bits)), b1))
			// contiguous low mask
			if m.Sign() == 0 {
				return int64(0)
			}
			n := new(big.Int).Add(m, b1)
			if new(big.Int).And(n, m).Sign() == 0 {
				return it.mkInt(c.modOf(p, n), tx)
			}
			// single-bit or high mask: m = (2^k - 1) << j
			j := m.TrailingZeroBits()
			hi := new(big.Int).Rsh(m, j)
			n = new(big.Int).Add(hi, b1)
			if new(big.Int).And(n, hi).Sign() == 0 {
				s := new(big.Int).Lsh(b1, j)
				return it.mkInt(c.modOf(c.divOf(p, s), n).scale(s), tx)
			}
		}
	case token.OR, token.XOR, token.AND_NOT:
		if z := q.cst(); z != nil && z.Sign() == 0 {
			return it.mkInt(p, tx)
		}
		if z := p.cst(); z != nil && z.Sign() == 0 && op != token.AND_NOT {
			return it.mkInt(q, tx)
		}
		// disjoint bit ranges: a<<k | b
		if op != token.AND_NOT {
			if r := disjointOr(c, p, q); r != nil {
				return it.mkInt(r, tx)
			}
			if r := disjointOr(c, q, p); r != nil {
				return it.mkInt(r, tx)
			}
		}
	}
	// short operands: bit by bit
	if k := shortBits(c, p, q); k > 0 && (op == token.AND || op == token.OR || op == token.XOR || op == token.AND_NOT) {
		r := pint(0)
		for i := 0; i < k; i++ {
			a, b := bitOf(c, p, i), bitOf(c, q, i)
			ab := a.mul(b)
			var t *Poly
			switch op {
			case token.AND:
				t = ab
			case token.OR:
				t = a.add(b).sub(ab)
			case token.XOR:
				t = a.add(b).sub(ab.scale(bi(2)))
			case token.AND_NOT:
				t = a.sub(ab)
			}
			r = r.add(t.scale(new(big.Int).Lsh(b1, uint(i))))
		}
		return it.mkInt(r, tx)
	}
	unsup("operator %s on symbolic integers", op)
	return nil
}

// shortBits gives the number of bits of two non-negative operands when it is small, 0 otherwise.
func shortBits(c *Ctx, ps ...*Poly) int {
	k := 1
	for _, p := range ps {
		lo, hi := c.bounds(p)
		if lo == nil || hi == nil || lo.Sign() < 0 || hi.BitLen() > 16 {
			return 0
		}
		if hi.BitLen() > k {
			k = hi.BitLen()
		}
	}
	return k
}

func bitOf(c *Ctx, p *Poly, i int) *Poly {
	if v := p.cst(); v != nil {
		return pint(int64(v.Bit(i)))
	}
	if lo, hi := c.bounds(p); lo.Sign() >= 0 && hi.Cmp(b1) <= 0 {
		if i == 0 {
			return p
		}
		return pint(0)
	}
	return c.modOf(c.divOf(p, new(big.Int).Lsh(b1, uint(i))), bi(2))
}

func disjointOr(c *Ctx, p, q *Poly) *Poly {
	lo, hi := c.bounds(q)
	if lo == nil || hi == nil || lo.Sign() < 0 {
		return nil
	}
	l2, _ := c.bounds(p)
	if l2 == nil || l2.Sign() < 0 {
		return nil
	}
	k := uint(hi.BitLen())
	m := new(big.Int).Lsh(b1, k)
	for _, t := range p.t {
		if new(big.Int).Mod(t.c, m).Sign() != 0 {
			return nil
		}
	}
	return p.add(q)
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func cmpInt(op token.Token, a, b int64) bool {
	switch op {
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	case token.EQL:
		return a == b
	case token.NEQ:
		return a != b
	}
	return false
}

func isCmp(op token.Token) bool {
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
		return true
	}
	return false
}

func lazyCmp(op token.Token, l *lazyInt, k int64) *Form {
	if !isCmp(op) {
		return nil
	}
	if l.lt == nil {
		a, z, b := cmpInt(op, -1, k), cmpInt(op, 0, k), cmpInt(op, 1, k)
		if a != b {
			unsup("order of representatives of group elements")
		}
		switch {
		case a && z:
			return FT
		case a:
			return mkNot(l.eq)
		case z:
			return l.eq
		}
		return FF
	}
	var fs []*Form
	if cmpInt(op, -1, k) {
		fs = append(fs, l.lt)
	}
	if cmpInt(op, 0, k) {
		fs = append(fs, l.eq)
	}
	if cmpInt(op, 1, k) {
		fs = append(fs, mkAnd(mkNot(l.lt), mkNot(l.eq)))
	}
	// simplify complementary pairs
	if len(fs) == 2 {
		switch {
		case !cmpInt(op, -1, k):
			return mkNot(l.lt)
		case !cmpInt(op, 0, k):
			return mkNot(l.eq)
		}
	}
	if len(fs) == 3 {
		return FT
	}
	return mkOr(fs...)
}

func bitCmp(c *Ctx, op token.Token, l *bitLen, k int64) *Form {
	if k > 1<<20 {
		k = 1 << 20
	}
	le := func(n int64) *Form {
		if n < 0 {
			return FF
		}
		return bitLenLe(c, l.p, int(n))
	}
	switch op {
	case token.LEQ:
		return le(k)
	case token.LSS:
		return le(k - 1)
	case token.GTR:
		return mkNot(le(k))
	case token.GEQ:
		return mkNot(le(k - 1))
	case token.EQL:
		return mkAnd(le(k), mkNot(le(k-1)))
	case token.NEQ:
		return mkNot(mkAnd(le(k), mkNot(le(k-1))))
	}
	return nil
}

func (it *Interp) intOp(op token.Token, a, b int64, bits int, signed bool, ty types.Type) V {
	w := func(x int64) V { return wrapInt(x, bits, signed) }
	ua, ub := uint64(a), uint64(b)
	switch op {
	case token.ADD:
		return w(a + b)
	case token.SUB:
		return w(a - b)
	case token.MUL:
		return w(a * b)
	case token.QUO:
		if b == 0 {
			it.runtimePanic("integer divide by zero")
		}
		if signed {
			if b == -1 {
				return w(-a)
			}
			return w(a / b)
		}
		return w(int64(ua / ub))
	case token.REM:
		if b == 0 {
			it.runtimePanic("integer divide by zero")
		}
		if signed {
			if b == -1 {
				return int64(0)
			}
			return w(a % b)
		}
		return w(int64(ua % ub))
	case token.AND:
		return w(a & b)
	case token.OR:
		return w(a | b)
	case token.XOR:
		return w(a ^ b)
	case token.AND_NOT:
		return w(a &^ b)
	case token.SHL:
		_, sy := intInfo(ty)
		if sy && b < 0 {
			it.runtimePanic("negative shift amount")
		}
		if ub >= 64 {
			return int64(0)
		}
		return w(a << ub)
	case token.SHR:
		_, sy := intInfo(ty)
		if sy && b < 0 {
			it.runtimePanic("negative shift amount")
		}
		if signed {
			if ub >= 64 {
				ub = 63
			}
			return w(a >> ub)
		}
		if ub >= 64 {
			return int64(0)
		}
		return w(int64(ua >> ub))
	}
	if signed {
		return cmpInt(op, a, b)
	}
	switch op {
	case token.LSS:
		return ua < ub
	case token.LEQ:
		return ua <= ub
	case token.GTR:
		return ua > ub
	case token.GEQ:
		return ua >= ub
	}
	unsup("operator %s", op)
	return nil
}

// eqV: equality of two values of the same static type.
func (it *Interp) eqV(t types.Type, x, y V) *Form {
	c := it.c
	bf := func(b bool) *Form {
		if b {
			return FT
		}
		return FF
	}
	switch a := x.(type) {
	case bool, *SBool:
		f, g := boolForm(x), boolForm(y)
		if f.op == fTrue {
			return g
		}
		if f.op == fFalse {
			return mkNot(g)
		}
		if g.op == fTrue {
			return f
		}
		if g.op == fFalse {
			return mkNot(f)
		}
		return mkOr(mkAnd(f, g), mkAnd(mkNot(f), mkNot(g)))
	case int64:
		switch b := y.(type) {
		case int64:
			return bf(a == b)
		case *lazyInt:
			return lazyCmp(token.EQL, b, a)
		case *bitLen:
			return bitCmp(c, token.EQL, b, a)
		}
		return c.mkEq(it.poly(x, t).sub(it.poly(y, t)))
	case *lazyInt:
		if b, ok := y.(int64); ok {
			return lazyCmp(token.EQL, a, b)
		}
		return c.mkEq(it.poly(x, t).sub(it.poly(y, t)))
	case *bitLen:
		if b, ok := y.(int64); ok {
			return bitCmp(c, token.EQL, a, b)
		}
		return c.mkEq(it.poly(x, t).sub(it.poly(y, t)))
	case *SInt:
		return c.mkEq(it.poly(x, t).sub(it.poly(y, t)))
	case TB:
		if b, ok := y.(TB); ok && a.i == b.i {
			if a.t == b.t {
				return FT
			}
		}
		return c.mkEq(it.poly(x, t).sub(it.poly(y, t)))
	case float64:
		b, ok := y.(float64)
		if !ok {
			unsup("floating-point comparison")
		}
		return bf(a == b)
	case string, *SStr:
		return it.strEq(x, y)
	case *V:
		b, _ := y.(*V)
		return bf(a == b)
	case nil:
		return bf(isNil(y))
	case *ssa.Function, *Closure, NativeFn:
		return bf(isNil(x) && isNil(y))
	case []V:
		b, _ := y.([]V)
		return bf(a == nil && b == nil)
	case *MapV:
		b, _ := y.(*MapV)
		return bf(a == b)
	case *NativeObj:
		return bf(a == y)
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			return bf(a.t == nil && isNil(y))
		}
		if a.t == nil || b.t == nil {
			return bf(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return FF
		}
		return it.eqV(a.t, a.v, b.v)
	case Struct:
		b := y.(Struct)
		st := t.Underlying().(*types.Struct)
		var fs []*Form
		for i := range a {
			fs = append(fs, it.eqV(st.Field(i).Type(), a[i], b[i]))
		}
		return mkAnd(fs...)
	case Arr:
		b := y.(Arr)
		et := t.Underlying().(*types.Array).Elem()
		if bt, ok := et.Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
			return c.bytesEq(a, b)
		}
		var fs []*Form
		for i := range a {
			fs = append(fs, it.eqV(et, a[i], b[i]))
		}
		return mkAnd(fs...)
	case *BigVal:
		unsup("comparison of big.Int representations")
	}
	panic(fmt.Sprintf("eqV %T", x))
}

func isNil(v V) bool {
	switch x := v.(type) {
	case nil:
		return true
	case *V:
		return x == nil
	case []V:
		return x == nil
	case *MapV:
		return x == nil
	case Iface:
		return x.t == nil
	case *ssa.Function:
		return x == nil
	case *Closure:
		return x == nil
	}
	return false
}

func (it *Interp) strEq(x, y V) *Form {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			if a == b {
				return FT
			}
			return FF
		}
	}
	a, b := strBytes(x), strBytes(y)
	if f := it.c.decEq(a, b); f != nil {
		return f
	}
	if f := it.c.decEq(b, a); f != nil {
		return f
	}
	if len(a) != len(b) {
		return FF
	}
	return it.c.bytesEq(a, b)
}

// decEq compares a lone decimal rendering with literal text.
func (c *Ctx) decEq(a, b []V) *Form {
	t := tokAt(a, 0)
	if t == nil || t.n != len(a) || t.kind != "dec" {
		return nil
	}
	txt := make([]byte, len(b))
	for j, x := range b {
		n, ok := x.(int64)
		if !ok {
			return nil
		}
		txt[j] = byte(n)
	}
	x, ok := new(big.Int).SetString(string(txt), 10)
	if !ok || x.String() != string(txt) {
		return FF
	}
	return c.bigEq(t.v, bigC(x))
}

func (it *Interp) convert(from, to types.Type, v V) V {
	uf, ut := from.Underlying(), to.Underlying()
	switch t := ut.(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsInteger != 0:
			switch x := v.(type) {
			case float64:
				b, s := intInfo(to)
				if !s && x >= 9.3e18 {
					return int64(uint64(x))
				}
				return wrapInt(int64(x), b, s)
			case *symFloat:
				if x.sqrt {
					return it.mkInt(it.c.sqrtOf(x.p), to)
				}
				return it.mkInt(x.p, to)
			case int64:
				b, s := intInfo(to)
				return wrapInt(x, b, s)
			case *lazyInt, *bitLen:
				return v
			}
			if tb, ok := v.(TB); ok {
				if b, s := intInfo(to); b == 8 && !s {
					return tb
				}
			}
			return it.mkInt(it.poly(v, from), to)
		case t.Info()&types.IsFloat != 0:
			switch x := v.(type) {
			case float64:
				if t.Kind() == types.Float32 {
					return float64(float32(x))
				}
				return x
			case int64:
				if _, s := intInfo(from); !s {
					return float64(uint64(x))
				}
				return float64(x)
			}
			p := it.poly(v, from)
			lo, hi := it.c.bounds(p)
			lim := new(big.Int).Lsh(b1, 52)
			if lo == nil || hi == nil || hi.Cmp(lim) > 0 || lo.Cmp(new(big.Int).Neg(lim)) < 0 {
				unsup("floating-point conversion of a symbolic integer above 2^52")
			}
			return &symFloat{p: p}
		case t.Info()&types.IsString != 0:
			switch x := v.(type) {
			case []V:
				if b, ok := uf.(*types.Slice).Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					return mkStr(x)
				}
				var sb strings.Builder
				for _, r := range x {
					sb.WriteRune(rune(it.concInt(r, types.Typ[types.Int32])))
				}
				return sb.String()
			case string, *SStr:
				return v
			case int64:
				return string(rune(x))
			}
			unsup("conversion of a symbolic rune to string")
		}
		return v
	case *types.Slice:
		if b, ok := uf.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if e, ok := t.Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Uint8 {
				return append([]V{}, strBytes(v)...)
			}
			s, ok := v.(string)
			if !ok {
				unsup("runes of a symbolic string")
			}
			var r []V
			for _, x := range s {
				r = append(r, int64(x))
			}
			return r
		}
	}
	return v
}

func (it *Interp) slice(x *ssa.Slice, v, lo, hi, max V) V {
	conc := func(v V, e ssa.Value, d int) int {
		if v == nil {
			return d
		}
		return int(it.concInt(v, e.Type()))
	}
	chk := func(l, h, m, n, c int) {
		if l < 0 || l > h || h > m || m > c {
			it.runtimePanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, c))
		}
	}
	switch s := v.(type) {
	case string, *SStr:
		b := strBytes(v)
		l := conc(lo, x.Low, 0)
		h := conc(hi, x.High, len(b))
		chk(l, h, len(b), len(b), len(b))
		if cs, ok := v.(string); ok {
			return cs[l:h]
		}
		return mkStr(b[l:h])
	case []V:
		l := conc(lo, x.Low, 0)
		h := conc(hi, x.High, len(s))
		m := conc(max, x.Max, cap(s))
		chk(l, h, m, len(s), cap(s))
		return s[l:h:m]
	case *V:
		a := (*it.deref(s)).(Arr)
		l := conc(lo, x.Low, 0)
		h := conc(hi, x.High, len(a))
		m := conc(max, x.Max, len(a))
		chk(l, h, m, len(a), len(a))
		return []V(a)[l:h:m]
	}
	panic(fmt.Sprintf("slice of %T", v))
}

// ---------------------------------------------------------------- maps

// mapKey canonicalises a key; ok=false when it has symbolic parts.
func mapKey(v V) (string, bool) {
	switch x := v.(type) {
	case string:
		return "s" + x, true
	case int64:
		return fmt.Sprintf("i%d", x), true
	case bool:
		return fmt.Sprintf("b%v", x), true
	case float64:
		return fmt.Sprintf("f%v", x), true
	case *V:
		return fmt.Sprintf("p%p", x), true
	case *NativeObj:
		return fmt.Sprintf("n%p", x), true
	case Iface:
		if x.t == nil {
			return "nil", true
		}
		k, ok := mapKey(x.v)
		return "I" + x.t.String() + "/" + k, ok
	case Struct:
		s := "S"
		for _, f := range x {
			k, ok := mapKey(f)
			if !ok {
				return "", false
			}
			s += "{" + k + "}"
		}
		return s, true
	case Arr:
		s := "A"
		for _, f := range x {
			k, ok := mapKey(f)
			if !ok {
				return "", false
			}
			s += "{" + k + "}"
		}
		return s, true
	case *SStr:
		return "y" + bytesKey(x.b), false
	case *SInt:
		return "z" + x.p.k(), false
	}
	return "", false
}

func (it *Interp) mapFind(m *MapV, k V) int {
	if m == nil {
		return -1
	}
	key, conc := mapKey(k)
	if key != "" {
		if i, ok := m.idx[key]; ok {
			return i
		}
	}
	if conc && !m.sym {
		return -1
	}
	for i, o := range m.keys {
		if o == nil {
			continue
		}
		if f := it.eqV(m.kt, o, k); it.c.decide(f) {
			return i
		}
	}
	return -1
}

func (it *Interp) mapSet(m *MapV, k, v V) {
	if i := it.mapFind(m, k); i >= 0 {
		m.vals[i] = copyV(v)
		return
	}
	key, conc := mapKey(k)
	if !conc {
		m.sym = true
	}
	if key != "" {
		m.idx[key] = len(m.keys)
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, copyV(v))
}

func (it *Interp) mapDel(m *MapV, k V) {
	i := it.mapFind(m, k)
	if i < 0 {
		return
	}
	// keep positions stable for iterators: rebuild
	var ks, vs []V
	for j := range m.keys {
		if j != i {
			ks = append(ks, m.keys[j])
			vs = append(vs, m.vals[j])
		}
	}
	m.keys, m.vals = ks, vs
	m.idx = map[string]int{}
	m.sym = false
	for j, k := range ks {
		key, conc := mapKey(k)
		if key != "" {
			m.idx[key] = j
		}
		if !conc {
			m.sym = true
		}
	}
}

func (it *Interp) lookup(x *ssa.Lookup, v, k V) V {
	if m, ok := v.(*MapV); ok {
		mt := x.X.Type().Underlying().(*types.Map)
		i := it.mapFind(m, k)
		var r V
		if i >= 0 {
			r = copyV(m.vals[i])
		} else {
			r = it.zero(mt.Elem())
		}
		if x.CommaOk {
			return Tuple{r, i >= 0}
		}
		return r
	}
	b := strBytes(v)
	return b[it.index(k, x.Index.Type(), len(b))]
}

func (it *Interp) rangeIter(v V) V {
	switch x := v.(type) {
	case *MapV:
		mi := &mapIter{m: x}
		if x != nil {
			mi.keys = append(mi.keys, x.keys...)
			if it.c.mapOrd && len(mi.keys) > 1 && len(mi.keys) <= 4 {
				// every iteration order
				for i := 0; i < len(mi.keys)-1; i++ {
					j := i + it.c.choose(len(mi.keys)-i, "map order")
					k := mi.keys[j]
					copy(mi.keys[i+1:j+1], mi.keys[i:j])
					mi.keys[i] = k
				}
			}
		}
		return mi
	case string:
		return &strIter{x, 0}
	case *SStr:
		return &symStrIter{x.b, 0}
	}
	panic(fmt.Sprintf("range over %T", v))
}

func (it *Interp) next(x *ssa.Next, v V) V {
	switch i := v.(type) {
	case *mapIter:
		tt := x.Type().(*types.Tuple)
		for i.i < len(i.keys) {
			k := i.keys[i.i]
			i.i++
			// entries deleted meanwhile are skipped
			for j, o := range i.m.keys {
				if sameKey(o, k) {
					return Tuple{true, k, copyV(i.m.vals[j])}
				}
			}
		}
		return Tuple{false, it.zeroAny(tt.At(1).Type()), it.zeroAny(tt.At(2).Type())}
	case *symStrIter:
		if i.i >= len(i.b) {
			return Tuple{false, int64(0), int64(0)}
		}
		b := i.b[i.i]
		bt := types.Typ[types.Uint8]
		if !it.truth(it.binop(token.LSS, bt, bt, b, int64(128))) {
			unsup("range over a symbolic string that is not ASCII")
		}
		i.i++
		return Tuple{true, int64(i.i - 1), b}
	case *strIter:
		if i.i >= len(i.s) {
			return Tuple{false, int64(0), int64(0)}
		}
		for j, r := range i.s[i.i:] {
			_ = j
			p := i.i
			n := len(string(r))
			if r == 0xfffd {
				n = 1
				if strings.HasPrefix(i.s[p:], "\uFFFD") {
					n = 3
				}
			}
			i.i += n
			return Tuple{true, int64(p), int64(r)}
		}
	}
	panic("next")
}

func (it *Interp) zeroAny(t types.Type) V {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return it.zero(t)
}

func sameKey(a, b V) bool {
	switch x := a.(type) {
	case *SStr:
		y, ok := b.(*SStr)
		return ok && (x == y || len(x.b) == len(y.b) && bytesKey(x.b) == bytesKey(y.b))
	case *SInt:
		y, ok := b.(*SInt)
		return ok && x.p.eq(y.p)
	}
	k1, ok1 := mapKey(a)
	k2, ok2 := mapKey(b)
	return ok1 && ok2 && k1 == k2
}

// ---------------------------------------------------------------- interfaces

func (it *Interp) typeAssert(x *ssa.TypeAssert, v Iface) V {
	ok := false
	var r V
	if v.t != nil {
		if iface, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			if o, isN := v.v.(*NativeObj); isN && v.t == nativeType(o.kind) {
				ok = nativeImplements(o, iface)
			} else {
				ok = types.Implements(v.t, iface) || it.P.implements(v.t, iface)
			}
			r = v
		} else if types.Identical(v.t, x.AssertedType) {
			ok = true
			r = copyV(v.v)
		}
	}
	if !ok {
		if x.CommaOk {
			return Tuple{it.zero(x.AssertedType), false}
		}
		d := "nil"
		if v.t != nil {
			d = v.t.String()
		}
		it.runtimePanic("interface conversion: interface is " + d + ", not " + x.AssertedType.String())
	}
	if x.CommaOk {
		return Tuple{r, true}
	}
	return r
}

var nativeTypes sync.Map

func nativeType(kind string) types.Type {
	if t, ok := nativeTypes.Load(kind); ok {
		return t.(types.Type)
	}
	n := types.NewNamed(types.NewTypeName(token.NoPos, nil, "native_"+kind, nil), types.NewStruct(nil, nil), nil)
	t, _ := nativeTypes.LoadOrStore(kind, n)
	return t.(types.Type)
}

func nativeImplements(o *NativeObj, i *types.Interface) bool {
	ms := nativeMethods[o.kind]
	for k := 0; k < i.NumMethods(); k++ {
		if !ms[i.Method(k).Name()] {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- builtins

func (it *Interp) builtin(caller *frame, b *ssa.Builtin, args []V) V {
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s, _ := args[0].([]V)
		var add []V
		switch y := args[1].(type) {
		case string, *SStr:
			add = strBytes(y)
		case []V:
			add = y
		case nil:
		default:
			panic(fmt.Sprintf("append %T", y))
		}
		if len(add) == 0 {
			return s
		}
		if len(s)+len(add) <= cap(s) {
			r := s[:len(s)+len(add)]
			tmp := make([]V, len(add))
			for i := range add {
				tmp[i] = copyV(add[i])
			}
			for i := range tmp {
				storeFresh(&r[len(s)+i], tmp[i])
			}
			return r
		}
		n := len(s) + len(add)
		c := n
		if 2*cap(s) > c {
			c = 2 * cap(s)
		}
		r := make([]V, n, c)
		copy(r, s)
		for i := range add {
			r[len(s)+i] = copyV(add[i])
		}
		full := r[:c]
		for i := n; i < c; i++ {
			full[i] = zeroLike(r[0])
		}
		return r
	case "copy":
		dst, _ := args[0].([]V)
		var src []V
		switch y := args[1].(type) {
		case string, *SStr:
			src = strBytes(y)
		case []V:
			src = y
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]V, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyV(src[i])
		}
		for i := 0; i < n; i++ {
			storeFresh(&dst[i], tmp[i])
		}
		return int64(n)
	case "len":
		switch x := args[0].(type) {
		case string, *SStr:
			return int64(strLen(x))
		case []V:
			return int64(len(x))
		case Arr:
			return int64(len(x))
		case *MapV:
			if x == nil {
				return int64(0)
			}
			return int64(len(x.keys))
		case *V:
			return int64(len((*it.deref(x)).(Arr)))
		case nil:
			return int64(0)
		}
	case "cap":
		switch x := args[0].(type) {
		case []V:
			return int64(cap(x))
		case Arr:
			return int64(len(x))
		case *V:
			return int64(len((*it.deref(x)).(Arr)))
		}
	case "delete":
		if m := args[0].(*MapV); m != nil {
			it.mapDel(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				x.keys, x.vals, x.idx, x.sym = nil, nil, map[string]int{}, false
			}
		case []V:
			for i := range x {
				x[i] = zeroLike(x[i])
			}
		}
		return nil
	case "min", "max":
		r := args[0]
		t := b.Type().(*types.Signature).Params().At(0).Type()
		for _, y := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			if it.truth(it.binop(op, t, t, y, r)) {
				r = y
			}
		}
		return r
	case "print", "println":
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		// caller is the deferred function; its caller is the panicking frame
		if caller != nil && caller.caller != nil && caller.caller.panicking {
			caller.caller.panicking = false
			p := caller.caller.panicV
			caller.caller.panicV = nil
			if tp, ok := p.(targetPanic); ok {
				if i, ok := tp.v.(Iface); ok {
					return i
				}
				return Iface{types.Typ[types.String], "panic"}
			}
		}
		return Iface{}
	case "ssa:wrapnilchk":
		if isNil(args[0]) {
			it.runtimePanic("value method called using nil pointer")
		}
		return args[0]
	}
	switch b.Name() {
	case "close":
		c := asChan(args[0])
		if c == nil || c.closed {
			it.runtimePanic("close of closed channel")
		}
		c.closed = true
		return nil
	case "len", "cap":
		if c := asChan(args[0]); c != nil {
			if b.Name() == "cap" {
				return int64(c.cap)
			}
			return int64(len(c.q))
		}
	}
	unsup("builtin %s", b.Name())
	return nil
}

func storeFresh(p *V, v V) { storeV(p, v) }

func zeroLike(v V) V {
	switch x := v.(type) {
	case int64, *SInt, TB, *lazyInt, *bitLen:
		return int64(0)
	case bool, *SBool:
		return false
	case float64, *symFloat:
		return float64(0)
	case string, *SStr:
		return ""
	case *V:
		return (*V)(nil)
	case []V:
		return []V(nil)
	case *MapV:
		return (*MapV)(nil)
	case Iface:
		return Iface{}
	case Struct:
		r := make(Struct, len(x))
		for i := range x {
			r[i] = zeroLike(x[i])
		}
		return r
	case Arr:
		r := make(Arr, len(x))
		for i := range x {
			r[i] = zeroLike(x[i])
		}
		return r
	case *BigVal:
		return bigZeroV
	}
	return nil
}

// ---------------------------------------------------------------- program helpers

func (p *Program) own(path string) bool {
	return path == p.mod || strings.HasPrefix(path, p.mod+"/")
}
func (p *Program) symPkg() string { return p.mod + "/verifsym" }

var methodMu sync.Mutex

func (p *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	methodMu.Lock()
	defer methodMu.Unlock()
	return p.prog.LookupMethod(t, m.Pkg(), m.Name())
}

func (p *Program) methodByName(t types.Type, name string) *ssa.Function {
	methodMu.Lock()
	defer methodMu.Unlock()
	ms := p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Name() == name {
			return p.prog.MethodValue(s)
		}
	}
	return nil
}

// implements tolerates distinct but identical type objects.
func (p *Program) implements(t types.Type, i *types.Interface) bool {
	methodMu.Lock()
	defer methodMu.Unlock()
	ms := p.prog.MethodSets.MethodSet(t)
	for k := 0; k < i.NumMethods(); k++ {
		found := false
		for j := 0; j < ms.Len(); j++ {
			if ms.At(j).Obj().Name() == i.Method(k).Name() {
				found = true
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}

func sortedKeys[T any](m map[string]T) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (it *Interp) stackStr(n int) string {
	s := ""
	for f := it.top; f != nil && n > 0; f, n = f.caller, n-1 {
		if s != "" {
			s += " < "
		}
		s += f.fn.Name()
	}
	return s
}
