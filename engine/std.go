package main

import (
	"bytes"
	"encoding/hex"
	"go/token"
	"go/types"
	"math"
	"net"
	"path"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Standard library functions that the repository does not use today but that ordinary rewritings of it may.

// pure functions, run natively when every argument is concrete and from source otherwise
var pureStd = map[string]any{
	"strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.SplitAfter": strings.SplitAfter, "strings.Fields": strings.Fields, "strings.Join": strings.Join,
	"strings.Index": strings.Index, "strings.LastIndex": strings.LastIndex, "strings.IndexByte": strings.IndexByte, "strings.IndexAny": strings.IndexAny, "strings.LastIndexByte": strings.LastIndexByte,
	"strings.Contains": strings.Contains, "strings.ContainsRune": strings.ContainsRune, "strings.ContainsAny": strings.ContainsAny, "strings.HasPrefix": strings.HasPrefix,
	"strings.HasSuffix": strings.HasSuffix, "strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft,
	"strings.TrimRight": strings.TrimRight, "strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.ToUpper": strings.ToUpper,
	"strings.ToLower": strings.ToLower, "strings.Repeat": strings.Repeat, "strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll,
	"strings.Count": strings.Count, "strings.EqualFold": strings.EqualFold, "strings.Compare": strings.Compare, "strings.Clone": strings.Clone,
	"strconv.Itoa": strconv.Itoa, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatUint": strconv.FormatUint, "strconv.FormatBool": strconv.FormatBool,
	"strconv.Quote": strconv.Quote, "strconv.ParseBool": strconv.ParseBool, "strconv.ParseFloat": strconv.ParseFloat, "strconv.ParseInt": strconv.ParseInt,
	"strconv.ParseUint": strconv.ParseUint, "strconv.Atoi": strconv.Atoi,
	"math.Abs": math.Abs, "math.Ceil": math.Ceil, "math.Round": math.Round, "math.Pow": math.Pow, "math.Max": math.Max, "math.Min": math.Min, "math.Log2": math.Log2,
	"math.Log": math.Log, "math.Exp": math.Exp, "math.Mod": math.Mod, "math.Cbrt": math.Cbrt, "math.IsNaN": math.IsNaN, "math.Hypot": math.Hypot,
	"encoding/hex.EncodeToString": hex.EncodeToString, "encoding/hex.DecodeString": hex.DecodeString,
	"internal/bytealg.IndexByteString": strings.IndexByte, "internal/bytealg.IndexString": strings.Index, "internal/bytealg.CountString": func(s string, b byte) int { return strings.Count(s, string([]byte{b})) },
	"internal/bytealg.LastIndexByteString": strings.LastIndexByte, "internal/bytealg.Index": bytes.Index, "internal/bytealg.Compare": bytes.Compare,
	"internal/bytealg.IndexByte": bytes.IndexByte, "internal/bytealg.Count": func(s []byte, b byte) int { return bytes.Count(s, []byte{b}) }, "internal/bytealg.LastIndexByte": bytes.LastIndexByte,
	"internal/stringslite.Clone": strings.Clone,
	"(time.Duration).String":     time.Duration.String, "(time.Duration).Seconds": time.Duration.Seconds, "(time.Duration).Minutes": time.Duration.Minutes, "(time.Duration).Hours": time.Duration.Hours,
	"(time.Duration).Milliseconds": time.Duration.Milliseconds, "(time.Duration).Microseconds": time.Duration.Microseconds, "(time.Duration).Nanoseconds": time.Duration.Nanoseconds,
	"path.Base": path.Base, "path.Join": path.Join, "unicode/utf8.ValidString": utf8.ValidString, "unicode/utf8.RuneCountInString": utf8.RuneCountInString,
}

// anyBytes are the bytes of a string or of a slice of bytes.
func anyBytes(v V) []V {
	if l, ok := v.([]V); ok {
		return l
	}
	return strBytes(v)
}

// toGo turns a concrete value of the program into one of Go.
func toGo(v V, t reflect.Type) (reflect.Value, bool) {
	r := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		s, ok := v.(string)
		r.SetString(s)
		return r, ok
	case reflect.Bool:
		b, ok := v.(bool)
		r.SetBool(b)
		return r, ok
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		n, ok := v.(int64)
		r.SetInt(n)
		return r, ok
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		n, ok := v.(int64)
		r.SetUint(uint64(n))
		return r, ok
	case reflect.Float64:
		n, ok := v.(float64)
		r.SetFloat(n)
		return r, ok
	case reflect.Slice:
		l, ok := v.([]V)
		if !ok {
			return r, v == nil
		}
		if l == nil {
			return r, true
		}
		r.Set(reflect.MakeSlice(t, len(l), len(l)))
		for i, e := range l {
			x, ok := toGo(e, t.Elem())
			if !ok {
				return r, false
			}
			r.Index(i).Set(x)
		}
		return r, true
	}
	return r, false
}

func (it *Interp) fromGo(r reflect.Value) V {
	switch r.Kind() {
	case reflect.String:
		return r.String()
	case reflect.Bool:
		return r.Bool()
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		return r.Int()
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		return int64(r.Uint())
	case reflect.Float64:
		return r.Float()
	case reflect.Slice:
		if r.IsNil() {
			return []V(nil)
		}
		l := make([]V, r.Len())
		for i := range l {
			l[i] = it.fromGo(r.Index(i))
		}
		return l
	case reflect.Interface:
		if r.IsNil() {
			return nilErr
		}
		if e, ok := r.Interface().(error); ok {
			return it.errV(e.Error())
		}
	}
	panic("fromGo " + r.Kind().String())
}

// wrapped is the data of an error value with text and, possibly, the error it wraps.
type wrapped struct {
	msg   string
	inner []Iface
}

func (it *Interp) errUnwrap(e Iface) []Iface {
	if o, ok := e.v.(*NativeObj); ok {
		if w, ok := o.data.(*wrapped); ok {
			return w.inner
		}
		return nil
	}
	if f := it.P.methodByName(e.t, "Unwrap"); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 {
		if r, ok := it.callFn(it.top, f, []V{e.v}, nil).(Iface); ok && r.t != nil {
			return []Iface{r}
		}
	}
	return nil
}

func (it *Interp) sameIface(a, b Iface) bool {
	if a.t == nil || b.t == nil {
		return a.t == nil && b.t == nil
	}
	return it.truth(it.binop(token.EQL, types.NewInterfaceType(nil, nil), types.NewInterfaceType(nil, nil), a, b))
}

type chanV struct {
	q           []V
	cap         int
	closed      bool
	timer, tick bool
	elem        types.Type
}

func (c *chanV) has() bool { return len(c.q) > 0 || c.closed }

// recv takes a value from the channel.
func (it *Interp) recv(c *chanV) (V, bool) {
	if c == nil {
		unsup("receive from a nil channel")
	}
	if c.timer && !c.has() {
		it.pause()
		c.timer = c.tick
		return it.zeroTime(), true
	}
	it.block("a value", c.has)
	if len(c.q) > 0 {
		v := c.q[0]
		c.q = c.q[1:]
		return v, true
	}
	return it.zero(c.elem), false
}

// send puts a value into the channel; that of an unbuffered one does not wait for the receiver.
func (it *Interp) send(c *chanV, v V) {
	if c == nil {
		unsup("send on a nil channel")
	}
	if c.cap > 0 {
		it.block("room", c.room)
	}
	if c.closed {
		it.runtimePanic("send on closed channel")
	}
	c.q = append(c.q, copyV(v))
}

func (c *chanV) room() bool { return c.cap == 0 || c.closed || len(c.q) < c.cap }

func (it *Interp) zeroTime() V {
	return it.zero(it.P.prog.ImportedPackage("time").Pkg.Scope().Lookup("Time").Type())
}

func asChan(v V) *chanV { c, _ := v.(*chanV); return c }

func (fr *frame) selectStmt(x *ssa.Select) V {
	it := fr.it
	tt := x.Type().(*types.Tuple)
	out := make(Tuple, tt.Len())
	for i := range out {
		out[i] = it.zero(tt.At(i).Type())
	}
	out[0], out[1] = int64(-1), false
	type alt struct {
		i, k int
		c    *chanV
		send bool
	}
	var alts []alt
	k := 1
	for i, st := range x.States {
		send := st.Dir == types.SendOnly
		if !send {
			k++
		}
		if c := asChan(fr.get(st.Chan)); c != nil {
			alts = append(alts, alt{i, k, c, send})
		}
	}
	try := func() bool {
		for _, a := range alts {
			if a.send && a.c.room() {
				return true
			}
			if !a.send && a.c.has() {
				return true
			}
		}
		return false
	}
	if !try() {
		if !x.Blocking {
			return out
		}
		timed := false
		for _, a := range alts {
			timed = timed || !a.send && a.c.timer
		}
		if timed {
			it.pause()
			if !try() {
				for _, a := range alts {
					if !a.send && a.c.timer {
						a.c.timer = a.c.tick
						a.c.q = append(a.c.q, it.zeroTime())
						break
					}
				}
			}
		} else {
			it.block("a channel", try)
		}
	}
	for _, a := range alts {
		if a.send && a.c.room() {
			it.send(a.c, fr.get(x.States[a.i].Send))
			out[0] = int64(a.i)
			return out
		}
		if !a.send && a.c.has() {
			v, ok := it.recv(a.c)
			out[0], out[1] = int64(a.i), ok
			out[a.k] = v
			return out
		}
	}
	panic("select")
}

func init() {
	for k, f := range pureStd {
		fv := reflect.ValueOf(f)
		ft := fv.Type()
		k := k
		old := intrinsics[k]
		reg(k, func(it *Interp, caller *frame, fn *ssa.Function, a []V) V {
			in := make([]reflect.Value, ft.NumIn())
			conc := len(a) == len(in)
			for i := 0; conc && i < len(in); i++ {
				in[i], conc = toGo(a[i], ft.In(i))
			}
			if conc {
				var out []reflect.Value
				if ft.IsVariadic() {
					out = fv.CallSlice(in)
				} else {
					out = fv.Call(in)
				}
				if len(out) == 1 {
					return it.fromGo(out[0])
				}
				t := make(Tuple, len(out))
				for i := range out {
					t[i] = it.fromGo(out[i])
				}
				return t
			}
			if old != nil {
				return old(it, caller, fn, a)
			}
			switch k {
			case "internal/bytealg.Compare", "strings.Compare":
				x, y := anyBytes(a[0]), anyBytes(a[1])
				for i := 0; i < len(x) && i < len(y); i++ {
					bt := types.Typ[types.Uint8]
					if it.truth(it.binop(token.EQL, bt, bt, x[i], y[i])) {
						continue
					}
					if it.truth(it.binop(token.LSS, bt, bt, x[i], y[i])) {
						return int64(-1)
					}
					return int64(1)
				}
				return int64(strings.Compare(strings.Repeat("x", len(x)), strings.Repeat("x", len(y))))
			case "internal/bytealg.IndexByteString", "internal/bytealg.IndexByte":
				bt := types.Typ[types.Uint8]
				for i, c := range anyBytes(a[0]) {
					if it.truth(it.binop(token.EQL, bt, bt, c, a[1])) {
						return int64(i)
					}
				}
				return int64(-1)
			case "strings.Clone", "internal/stringslite.Clone":
				return a[0]
			}
			if fn.Blocks == nil {
				unsup("external function %s on symbolic values", k)
			}
			return it.callSSA(caller, fn, a, nil)
		})
	}
	s := func(key string, f func(it *Interp, a []V) V) {
		reg(key, func(it *Interp, _ *frame, _ *ssa.Function, a []V) V { return f(it, a) })
	}
	// the clock stands still
	reg("time.Now", func(it *Interp, _ *frame, fn *ssa.Function, a []V) V {
		return it.zero(fn.Signature.Results().At(0).Type())
	})
	for _, n := range []string{"time.Since", "time.Until", "(time.Time).Sub", "(time.Time).UnixNano", "(time.Time).Unix", "(time.Time).UnixMilli", "(time.Time).Nanosecond", "(time.Time).Second"} {
		s(n, func(it *Interp, a []V) V { return int64(0) })
	}
	for _, n := range []string{"Format", "String"} {
		s("(time.Time)."+n, func(it *Interp, a []V) V { return "<time>" })
	}
	for _, n := range []string{"After", "Before"} {
		s("(time.Time)."+n, func(it *Interp, a []V) V { return false })
	}
	for _, n := range []string{"Equal", "IsZero"} {
		s("(time.Time)."+n, func(it *Interp, a []V) V { return true })
	}
	for _, n := range []string{"Add", "Truncate", "Round", "UTC", "Local"} {
		s("(time.Time)."+n, func(it *Interp, a []V) V { return copyV(a[0]) })
	}
	// errors
	s("errors.Unwrap", func(it *Interp, a []V) V {
		e := a[0].(Iface)
		if e.t == nil {
			return nilErr
		}
		if l := it.errUnwrap(e); len(l) == 1 {
			return l[0]
		}
		return nilErr
	})
	var is func(it *Interp, e, target Iface) bool
	is = func(it *Interp, e, target Iface) bool {
		if it.sameIface(e, target) {
			return true
		}
		if e.t == nil {
			return false
		}
		if _, native := e.v.(*NativeObj); !native {
			if f := it.P.methodByName(e.t, "Is"); f != nil && f.Signature.Params().Len() == 1 && it.truth(it.callFn(it.top, f, []V{e.v, target}, nil)) {
				return true
			}
		}
		for _, u := range it.errUnwrap(e) {
			if is(it, u, target) {
				return true
			}
		}
		return false
	}
	s("errors.Is", func(it *Interp, a []V) V { return is(it, a[0].(Iface), a[1].(Iface)) })
	s("errors.As", func(it *Interp, a []V) V {
		tgt := a[1].(Iface)
		p := it.deref(tgt.v)
		want := tgt.t.Underlying().(*types.Pointer).Elem()
		var walk func(e Iface) bool
		walk = func(e Iface) bool {
			if e.t == nil {
				return false
			}
			if ifc, ok := want.Underlying().(*types.Interface); ok {
				if o, isN := e.v.(*NativeObj); isN && nativeImplements(o, ifc) || !isN && types.Implements(e.t, ifc) {
					storeV(p, e)
					return true
				}
			} else if types.Identical(e.t, want) {
				storeV(p, e.v)
				return true
			}
			for _, u := range it.errUnwrap(e) {
				if walk(u) {
					return true
				}
			}
			return false
		}
		return walk(a[0].(Iface))
	})
	// sorting by a comparison function
	sortBy := func(it *Interp, a []V) V {
		l, _ := a[0].(Iface).v.([]V)
		for i := 1; i < len(l); i++ {
			for j := i; j > 0 && it.truth(it.call(it.top, a[1], []V{int64(j), int64(j - 1)}, token.NoPos)); j-- {
				x, y := copyV(l[j]), copyV(l[j-1])
				storeV(&l[j], y)
				storeV(&l[j-1], x)
			}
		}
		return nil
	}
	s("sort.Slice", sortBy)
	s("sort.SliceStable", sortBy)
	s("sort.SliceIsSorted", func(it *Interp, a []V) V {
		l, _ := a[0].(Iface).v.([]V)
		for i := 1; i < len(l); i++ {
			if it.truth(it.call(it.top, a[1], []V{int64(i), int64(i - 1)}, token.NoPos)) {
				return false
			}
		}
		return true
	})
	// loggers write nowhere
	reg("log.New", func(it *Interp, _ *frame, _ *ssa.Function, a []V) V { return newCell(&NativeObj{kind: "file"}) })
	reg("log.Default", func(it *Interp, _ *frame, _ *ssa.Function, a []V) V { return newCell(&NativeObj{kind: "file"}) })
	for _, n := range []string{"Println", "Printf", "Print", "SetPrefix", "SetFlags", "SetOutput"} {
		s("(*log.Logger)."+n, func(it *Interp, a []V) V { return nil })
		s("log."+n, func(it *Interp, a []V) V { return nil })
	}
	for _, n := range []string{"Fatal", "Fatalf", "Fatalln"} {
		s("(*log.Logger)."+n, func(it *Interp, a []V) V { it.fatal("log.Fatal"); return nil })
	}
	smap := func(it *Interp, v V) *MapV {
		p := it.deref(v)
		if o, ok := (*p).(*NativeObj); ok && o.kind == "syncmap" {
			return o.data.(*MapV)
		}
		m := &MapV{idx: map[string]int{}, kt: types.NewInterfaceType(nil, nil)}
		*p = &NativeObj{kind: "syncmap", data: m}
		return m
	}
	get := func(it *Interp, m *MapV, k V) (V, bool) {
		for i, o := range m.keys {
			if it.sameIface(o.(Iface), k.(Iface)) {
				return m.vals[i], true
			}
		}
		return Iface{}, false
	}
	put := func(it *Interp, m *MapV, k, v V) {
		for i, o := range m.keys {
			if it.sameIface(o.(Iface), k.(Iface)) {
				m.vals[i] = v
				return
			}
		}
		m.keys, m.vals = append(m.keys, k), append(m.vals, v)
	}
	del := func(it *Interp, m *MapV, k V) {
		for i, o := range m.keys {
			if it.sameIface(o.(Iface), k.(Iface)) {
				m.keys, m.vals = append(m.keys[:i:i], m.keys[i+1:]...), append(m.vals[:i:i], m.vals[i+1:]...)
				return
			}
		}
	}
	s("(*sync.Map).Store", func(it *Interp, a []V) V { put(it, smap(it, a[0]), a[1], a[2]); return nil })
	s("(*sync.Map).Load", func(it *Interp, a []V) V { v, ok := get(it, smap(it, a[0]), a[1]); return Tuple{v, ok} })
	s("(*sync.Map).Delete", func(it *Interp, a []V) V { del(it, smap(it, a[0]), a[1]); return nil })
	s("(*sync.Map).LoadOrStore", func(it *Interp, a []V) V {
		m := smap(it, a[0])
		if v, ok := get(it, m, a[1]); ok {
			return Tuple{v, true}
		}
		put(it, m, a[1], a[2])
		return Tuple{a[2], false}
	})
	s("(*sync.Map).LoadAndDelete", func(it *Interp, a []V) V {
		m := smap(it, a[0])
		v, ok := get(it, m, a[1])
		del(it, m, a[1])
		return Tuple{v, ok}
	})
	s("(*sync.Map).Range", func(it *Interp, a []V) V {
		m := smap(it, a[0])
		ks, vs := append([]V{}, m.keys...), append([]V{}, m.vals...)
		for i := range ks {
			if !it.truth(it.call(it.top, a[1], []V{ks[i], vs[i]}, token.NoPos)) {
				break
			}
		}
		return nil
	})
	reg("(*sync.Pool).Get", func(it *Interp, _ *frame, fn *ssa.Function, a []V) V {
		st, ok := (*it.deref(a[0])).(Struct)
		if !ok || isNil(st[len(st)-1]) {
			return Iface{}
		}
		return it.call(it.top, st[len(st)-1], nil, token.NoPos)
	})
	s("(*sync.Pool).Put", func(it *Interp, a []V) V { return nil })
	s("(*strings.Builder).copyCheck", func(it *Interp, a []V) V { return nil })
	s("internal/abi.NoEscape", func(it *Interp, a []V) V { return a[0] })
	s("(*strings.Builder).String", func(it *Interp, a []V) V {
		st := (*it.deref(a[0])).(Struct)
		b, _ := st[len(st)-1].([]V)
		return mkStr(append([]V(nil), b...))
	})
	s("internal/bytealg.MakeNoZero", func(it *Interp, a []V) V {
		n, ok := a[0].(int64)
		if !ok {
			unsup("buffer of symbolic length")
		}
		l := make([]V, n)
		for i := range l {
			l[i] = int64(0)
		}
		return l
	})
	for _, n := range []string{"os.Getenv"} {
		s(n, func(it *Interp, a []V) V { return "" })
	}
	s("os.LookupEnv", func(it *Interp, a []V) V { return Tuple{"", false} })
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		w := t
		typ := types.Typ[map[string]types.BasicKind{"Int32": types.Int32, "Int64": types.Int64, "Uint32": types.Uint32, "Uint64": types.Uint64}[t]]
		s("sync/atomic.Load"+w, func(it *Interp, a []V) V { return *it.deref(a[0]) })
		s("sync/atomic.Store"+w, func(it *Interp, a []V) V { *it.deref(a[0]) = a[1]; return nil })
		s("sync/atomic.Swap"+w, func(it *Interp, a []V) V { p := it.deref(a[0]); o := *p; *p = a[1]; return o })
		s("sync/atomic.Add"+w, func(it *Interp, a []V) V {
			p := it.deref(a[0])
			*p = it.binop(token.ADD, typ, typ, *p, a[1])
			return *p
		})
		s("sync/atomic.CompareAndSwap"+w, func(it *Interp, a []V) V {
			p := it.deref(a[0])
			if it.truth(it.binop(token.EQL, typ, typ, *p, a[1])) {
				*p = a[2]
				return true
			}
			return false
		})
	}
	// atomic types: the value is the last field
	last := func(it *Interp, v V) *V {
		st := (*it.deref(v)).(Struct)
		return &st[len(st)-1]
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		typ := types.Typ[map[string]types.BasicKind{"Int32": types.Int32, "Int64": types.Int64, "Uint32": types.Uint32, "Uint64": types.Uint64}[t]]
		m := "(*sync/atomic." + t + ")."
		s(m+"Load", func(it *Interp, a []V) V { return *last(it, a[0]) })
		s(m+"Store", func(it *Interp, a []V) V { *last(it, a[0]) = a[1]; return nil })
		s(m+"Swap", func(it *Interp, a []V) V { p := last(it, a[0]); o := *p; *p = a[1]; return o })
		s(m+"Add", func(it *Interp, a []V) V {
			p := last(it, a[0])
			*p = it.binop(token.ADD, typ, typ, *p, a[1])
			return *p
		})
		s(m+"CompareAndSwap", func(it *Interp, a []V) V {
			p := last(it, a[0])
			if it.truth(it.binop(token.EQL, typ, typ, *p, a[1])) {
				*p = a[2]
				return true
			}
			return false
		})
	}
	bit := func(v V) V {
		if it, ok := v.(bool); ok {
			if it {
				return int64(1)
			}
			return int64(0)
		}
		unsup("atomic.Bool with a symbolic value")
		return nil
	}
	s("(*sync/atomic.Bool).Load", func(it *Interp, a []V) V { return (*last(it, a[0])).(int64) != 0 })
	s("(*sync/atomic.Bool).Store", func(it *Interp, a []V) V { *last(it, a[0]) = bit(a[1]); return nil })
	s("(*sync/atomic.Bool).Swap", func(it *Interp, a []V) V {
		p := last(it, a[0])
		o := (*p).(int64) != 0
		*p = bit(a[1])
		return o
	})
	s("(*sync/atomic.Bool).CompareAndSwap", func(it *Interp, a []V) V {
		p := last(it, a[0])
		if (*p).(int64) != bit(a[1]).(int64) {
			return false
		}
		*p = bit(a[2])
		return true
	})
	s("(*sync/atomic.Value).Load", func(it *Interp, a []V) V { return *last(it, a[0]) })
	s("(*sync/atomic.Value).Store", func(it *Interp, a []V) V { *last(it, a[0]) = a[1]; return nil })
	// host and port
	s("net.JoinHostPort", func(it *Interp, a []V) V {
		h, ok1 := a[0].(string)
		p, ok2 := a[1].(string)
		if !ok1 || !ok2 {
			unsup("symbolic network address")
		}
		return net.JoinHostPort(h, p)
	})
	s("net.SplitHostPort", func(it *Interp, a []V) V {
		st, ok := a[0].(string)
		if !ok {
			unsup("symbolic network address")
		}
		h, p, err := net.SplitHostPort(st)
		if err != nil {
			return Tuple{"", "", it.errV(err.Error())}
		}
		return Tuple{h, p, nilErr}
	})
}
