package main

// gob and protobuf modelled as injective encodings of a canonical content.

import (
	"fmt"
	"go/types"
	"strings"
)

// content trees
type gStruct struct {
	names []string
	vals  []V
}
type gMap struct{ keys, vals []V }
type gNil struct{}
type gIface struct {
	t types.Type
	v V
}
type gList struct{ l []V }  // slice or array
type gBytes struct{ b []V } // byte slice
type gBig struct{ v *BigVal }
type gErr struct{ msg string }

// encLen is the nominal length of an encoded message: a function of its content's sizes.
func encLen(v V) int {
	switch x := v.(type) {
	case gStruct:
		n := 8
		for _, f := range x.vals {
			n += 1 + encLen(f)
		}
		return n
	case gMap:
		n := 8
		for i := range x.keys {
			n += encLen(x.keys[i]) + encLen(x.vals[i])
		}
		return n
	case gIface:
		return 12 + encLen(x.v)
	case gList:
		n := 8
		for _, e := range x.l {
			n += 1 + encLen(e)
		}
		return n
	case gBytes:
		return 1 + len(x.b)
	case gBig:
		return 65
	case string:
		return 1 + len(x)
	case *SStr:
		return 1 + len(x.b)
	}
	return 4
}

func (it *Interp) encTok(codec string, tree V) []V {
	k := codec + treeKey(tree)
	if t, ok := it.c.toks[k]; ok {
		return t.bytes()
	}
	t := &Tok{id: len(it.c.toks), kind: "enc", n: 16 + encLen(tree), key: k, enc: &Encoded{codec: codec, v: tree, key: k}}
	it.c.toks[k] = t
	return t.bytes()
}

func treeKey(v V) string {
	switch x := v.(type) {
	case gStruct:
		s := "{"
		for i, n := range x.names {
			s += n + ":" + treeKey(x.vals[i]) + ";"
		}
		return s + "}"
	case gMap:
		s := "map{"
		for i, n := range x.keys {
			s += treeKey(n) + ":" + treeKey(x.vals[i]) + ";"
		}
		return s + "}"
	case gNil:
		return "nil"
	case gIface:
		return "I(" + x.t.String() + ")" + treeKey(x.v)
	case gList:
		s := "["
		for _, e := range x.l {
			s += treeKey(e) + ","
		}
		return s + "]"
	case gBytes:
		return "b" + bytesKey(x.b)
	case gBig:
		return "B" + x.v.k()
	case string:
		return fmt.Sprintf("%q", x)
	case *SStr:
		return "s" + bytesKey(x.b)
	case int64:
		return fmt.Sprintf("i%d", x)
	case *SInt:
		return "p" + x.p.k()
	case bool:
		return fmt.Sprint(x)
	case *SBool:
		return "f" + x.f.k()
	case float64:
		return fmt.Sprintf("r%v", x)
	case TB:
		return "t" + bytesKey([]V{x})
	}
	unsup("encoding of %T", v)
	return ""
}

// treeEq: equality of two contents.
func (it *Interp) treeEq(a, b V) *Form { return it.c.treeEq(a, b) }

func (c *Ctx) treeEq(a, b V) *Form {
	if treeKey(a) == treeKey(b) {
		return FT
	}
	switch x := a.(type) {
	case gStruct:
		y, ok := b.(gStruct)
		if !ok || len(x.vals) != len(y.vals) {
			return FF
		}
		var fs []*Form
		for i := range x.vals {
			fs = append(fs, c.treeEq(x.vals[i], y.vals[i]))
		}
		return mkAnd(fs...)
	case gMap:
		y, ok := b.(gMap)
		if !ok || len(x.vals) != len(y.vals) {
			return FF
		}
		var fs []*Form
		for i := range x.vals {
			fs = append(fs, c.treeEq(x.keys[i], y.keys[i]), c.treeEq(x.vals[i], y.vals[i]))
		}
		return mkAnd(fs...)
	case gIface:
		y, ok := b.(gIface)
		if !ok || !types.Identical(x.t, y.t) {
			return FF
		}
		return c.treeEq(x.v, y.v)
	case gList:
		y, ok := b.(gList)
		if !ok || len(x.l) != len(y.l) {
			return FF
		}
		var fs []*Form
		for i := range x.l {
			fs = append(fs, c.treeEq(x.l[i], y.l[i]))
		}
		return mkAnd(fs...)
	case gBytes:
		y, ok := b.(gBytes)
		if !ok {
			return FF
		}
		return c.bytesEq(x.b, y.b)
	case gBig:
		y, ok := b.(gBig)
		if !ok {
			return FF
		}
		return c.bigEq(x.v, y.v)
	case string, *SStr:
		switch b.(type) {
		case string, *SStr:
			p, q := strBytes(a), strBytes(b)
			return c.bytesEq(p, q)
		}
		return FF
	case bool, *SBool:
		f, g := boolForm(a), boolForm(b)
		return mkOr(mkAnd(f, g), mkAnd(mkNot(f), mkNot(g)))
	case int64, *SInt, TB:
		return c.mkEq(c.leafPoly(a).sub(c.leafPoly(b)))
	}
	return FF
}

func (c *Ctx) leafPoly(v V) *Poly {
	switch x := v.(type) {
	case int64:
		return pint(x)
	case *SInt:
		return x.p
	case TB:
		return c.byteOf(x)
	}
	unsup("encoding of %T", v)
	return nil
}

func (c *Ctx) encEq(a, b *Encoded) *Form {
	if a.codec != b.codec {
		return FF
	}
	return c.treeEq(a.v, b.v)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func leafInt(v V) V {
	switch x := v.(type) {
	case *lazyInt, *bitLen:
		unsup("encoding of %T", x)
	}
	return v
}

// ---------------------------------------------------------------- gob

func (it *Interp) gobTree(t types.Type, v V, top bool) V {
	if isBigInt(t) {
		return gBig{v.(*BigVal)}
	}
	if it.P.methodByName(t, "GobEncode") != nil && !isBigPtr(t) && isNamedOrPtr(t) {
		if isNil(v) {
			return gErr{"gob: nil pointer"}
		}
		r := it.invoke(Iface{t, v}, "GobEncode").(Tuple)
		if r[1].(Iface).t != nil {
			return gErr{"gob: encoder failed"}
		}
		return gBytes{append([]V{}, r[0].([]V)...)}
	}
	if !isBigPtr(t) && isNamedOrPtr(t) && it.P.methodByName(t, "MarshalBinary") != nil {
		if _, isI := t.Underlying().(*types.Interface); !isI {
			if isNil(v) {
				return gErr{"gob: nil pointer"}
			}
			r := it.invoke(Iface{t, v}, "MarshalBinary").(Tuple)
			if r[1].(Iface).t != nil {
				return gErr{"gob: encoder failed"}
			}
			return gBytes{append([]V{}, r[0].([]V)...)}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return leafInt(v)
	case *types.Pointer:
		p, _ := v.(*V)
		if p == nil {
			return gNil{}
		}
		return it.gobTree(u.Elem(), *p, false)
	case *types.Slice:
		l, _ := v.([]V)
		if isByteSlice(t) {
			return gBytes{append([]V{}, l...)}
		}
		return it.gobList(u.Elem(), l)
	case *types.Array:
		l, _ := v.(Arr)
		return it.gobList(u.Elem(), l)
	case *types.Struct:
		s := v.(Struct)
		var g gStruct
		for i := range s {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			if k := f.Type().Underlying(); isFuncOrChan(k) {
				continue
			}
			x := it.gobTree(f.Type(), s[i], false)
			if e, ok := x.(gErr); ok {
				if strings.Contains(e.msg, "nil pointer") {
					x = gNil{}
				} else {
					return e
				}
			}
			g.names = append(g.names, f.Name())
			g.vals = append(g.vals, x)
		}
		if len(g.names) == 0 {
			return gErr{"gob: type " + t.String() + " has no exported fields"}
		}
		return g
	case *types.Map:
		m, _ := v.(*MapV)
		var g gMap
		if m == nil {
			return g
		}
		for i, k := range m.keys {
			if k == nil {
				continue
			}
			kt := it.gobTree(u.Key(), k, false)
			vt := it.gobTree(u.Elem(), m.vals[i], false)
			for _, x := range []V{kt, vt} {
				if e, ok := x.(gErr); ok {
					return e
				}
				if _, ok := x.(gNil); ok {
					if _, isI := u.Elem().Underlying().(*types.Interface); !isI {
						return gErr{"gob: encodeReflectValue: nil element"}
					}
				}
			}
			g.keys = append(g.keys, kt)
			g.vals = append(g.vals, vt)
		}
		// canonical order
		for i := 1; i < len(g.keys); i++ {
			for j := i; j > 0 && treeKey(g.keys[j]) < treeKey(g.keys[j-1]); j-- {
				g.keys[j], g.keys[j-1] = g.keys[j-1], g.keys[j]
				g.vals[j], g.vals[j-1] = g.vals[j-1], g.vals[j]
			}
		}
		return g
	case *types.Interface:
		x := v.(Iface)
		if x.t == nil {
			return gNil{}
		}
		if !it.gobRegistered(x.t) {
			return gErr{"gob: type not registered for interface: " + x.t.String()}
		}
		r := it.gobTree(x.t, x.v, false)
		switch r.(type) {
		case gErr:
			return r
		case gNil:
			return gErr{"gob: cannot encode nil pointer of type " + x.t.String()}
		}
		return gIface{x.t, r}
	}
	return gErr{"gob: type " + t.String() + " can't be encoded"}
}

func isFuncOrChan(t types.Type) bool {
	switch t.(type) {
	case *types.Signature, *types.Chan:
		return true
	}
	return false
}

func isNamedOrPtr(t types.Type) bool {
	switch x := types.Unalias(t).(type) {
	case *types.Named:
		return true
	case *types.Pointer:
		_, ok := types.Unalias(x.Elem()).(*types.Named)
		return ok
	}
	return false
}

func (it *Interp) gobList(et types.Type, l []V) V {
	var g gList
	for _, e := range l {
		x := it.gobTree(et, e, false)
		if r, ok := x.(gErr); ok {
			return r
		}
		if _, ok := x.(gNil); ok {
			if _, isI := et.Underlying().(*types.Interface); !isI {
				return gErr{"gob: encodeReflectValue: nil element"}
			}
		}
		g.l = append(g.l, x)
	}
	return g
}

func (it *Interp) gobRegistered(t types.Type) bool {
	if it.c.gobReg[t.String()] {
		return true
	}
	if _, ok := t.(*types.Basic); ok {
		return true
	}
	if s, ok := t.(*types.Slice); ok {
		if _, ok := s.Elem().(*types.Basic); ok {
			return true
		}
	}
	return false
}

func (it *Interp) gobEncode(w Iface, x Iface) V {
	if x.t == nil {
		panic(targetPanic{Iface{types.Typ[types.String], "gob: cannot encode nil pointer"}})
	}
	if p, ok := x.v.(*V); ok && p == nil {
		panic(targetPanic{Iface{types.Typ[types.String], "gob: cannot encode nil pointer of type " + x.t.String()}})
	}
	tree := it.gobTree(x.t, x.v, true)
	if e, ok := tree.(gErr); ok {
		return it.errV(e.msg)
	}
	r := it.invoke(w, "Write", it.encTok("gob", tree))
	if tp, ok := r.(Tuple); ok {
		return tp[1]
	}
	return nilErr
}

// readToken consumes one encoded message from a reader.
func (it *Interp) readToken(r Iface, codec string) (V, V) {
	p, ok := r.v.(*V)
	if !ok || p == nil {
		unsup("decoding from %s", r.t)
	}
	st, ok := (*p).(Struct)
	if !ok {
		unsup("decoding from %s", r.t)
	}
	name := r.t.String()
	if name != "*bytes.Reader" && name != "*bytes.Buffer" {
		unsup("decoding from %s", name)
	}
	b, _ := st[0].([]V)
	off, ok := st[1].(int64)
	if !ok {
		unsup("symbolic read position")
	}
	b = b[off:]
	if len(b) == 0 {
		return nil, it.eof()
	}
	t := tokAt(b, 0)
	if t == nil || t.kind != "enc" {
		conc := true
		for _, x := range b {
			if _, ok := x.(int64); !ok {
				conc = false
			}
		}
		if tb, ok := b[0].(TB); ok && tb.t.kind == "enc" {
			return nil, it.errV("unexpected EOF")
		}
		if conc {
			return nil, it.errV(codec + ": garbage")
		}
		unsup("decoding of symbolic bytes")
	}
	if t.enc.codec != codec {
		return nil, it.errV(codec + ": wrong format")
	}
	st[1] = off + int64(t.n)
	return t.enc.v, nil
}

func (it *Interp) eof() V {
	if p := it.P.pkgs["io"]; p != nil {
		if g := p.Var("EOF"); g != nil {
			return *it.global(g)
		}
	}
	return it.errV("EOF")
}

func (it *Interp) gobDecode(r Iface, x Iface) V {
	tree, e := it.readToken(r, "gob")
	if e != nil {
		return e
	}
	if x.t == nil {
		return nilErr
	}
	pt, ok := x.t.Underlying().(*types.Pointer)
	if !ok {
		return it.errV("gob: attempt to decode into a non-pointer")
	}
	p, _ := x.v.(*V)
	if p == nil {
		return it.errV("gob: decode into nil pointer")
	}
	if msg := it.gobFill(p, pt.Elem(), tree); msg != "" {
		return it.errV(msg)
	}
	return nilErr
}

func zeroTree(v V) bool {
	switch x := v.(type) {
	case gNil:
		return true
	case int64:
		return x == 0
	case string:
		return x == ""
	case bool:
		return !x
	case float64:
		return x == 0
	case gBytes:
		return len(x.b) == 0
	case gList:
		return len(x.l) == 0
	case gMap:
		return len(x.keys) == 0
	}
	return false
}

func (it *Interp) gobFill(p *V, t types.Type, tree V) string {
	bad := "gob: type mismatch decoding into " + t.String()
	if _, ok := tree.(gNil); ok {
		return ""
	}
	if isBigInt(t) {
		g, ok := tree.(gBig)
		if !ok {
			return bad
		}
		*p = g.v
		return ""
	}
	if u, ok := t.Underlying().(*types.Pointer); ok {
		if gb, isB := tree.(gBytes); isB && !isBigPtr(t) {
			if um := it.unmarshaler(t); um != "" {
				if isNil(*p) {
					*p = newCell(it.zero(u.Elem()))
				}
				if e := it.invoke(Iface{t, *p}, um, append([]V{}, gb.b...)).(Iface); e.t != nil {
					return "gob: unmarshal failed"
				}
				return ""
			}
		}
		q, _ := (*p).(*V)
		if q == nil {
			q = newCell(it.zero(u.Elem()))
			*p = q
		}
		return it.gobFill(q, u.Elem(), tree)
	}
	if gb, isB := tree.(gBytes); isB {
		if um := it.unmarshaler(types.NewPointer(t)); um != "" && !isByteSlice(t) {
			if e := it.invoke(Iface{types.NewPointer(t), p}, um, append([]V{}, gb.b...)).(Iface); e.t != nil {
				return "gob: unmarshal failed"
			}
			return ""
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch tree.(type) {
		case string, *SStr:
			if u.Info()&types.IsString == 0 {
				return bad
			}
		case bool, *SBool:
			if u.Info()&types.IsBoolean == 0 {
				return bad
			}
		case int64, *SInt, TB:
			if u.Info()&types.IsInteger == 0 {
				return bad
			}
		case float64:
			if u.Info()&types.IsFloat == 0 {
				return bad
			}
		default:
			return bad
		}
		*p = tree
	case *types.Slice:
		if isByteSlice(t) {
			g, ok := tree.(gBytes)
			if !ok {
				return bad
			}
			*p = append([]V{}, g.b...)
			return ""
		}
		g, ok := tree.(gList)
		if !ok {
			return bad
		}
		old, _ := (*p).([]V)
		var l []V
		if len(old) >= len(g.l) && len(old) > 0 || cap(old) >= len(g.l) && cap(old) > 0 {
			l = old[:len(g.l)] // gob reuses the target's storage
		} else {
			l = make([]V, len(g.l))
			for i := range l {
				l[i] = it.zero(u.Elem())
			}
		}
		for i, e := range g.l {
			if m := it.gobFill(&l[i], u.Elem(), e); m != "" {
				return m
			}
		}
		*p = l
	case *types.Array:
		g, ok := tree.(gList)
		a := (*p).(Arr)
		if !ok || len(g.l) != len(a) {
			return bad
		}
		for i, e := range g.l {
			if m := it.gobFill(&a[i], u.Elem(), e); m != "" {
				return m
			}
		}
	case *types.Struct:
		g, ok := tree.(gStruct)
		if !ok {
			return bad
		}
		s := (*p).(Struct)
		hit := false
		for i := range s {
			f := u.Field(i)
			for j, n := range g.names {
				if n == f.Name() && f.Exported() {
					hit = true
					if zeroTree(g.vals[j]) {
						continue // zero fields are not transmitted
					}
					if m := it.gobFill(&s[i], f.Type(), g.vals[j]); m != "" {
						return m
					}
				}
			}
		}
		if !hit {
			return "gob: type mismatch: no fields matched"
		}
	case *types.Map:
		g, ok := tree.(gMap)
		if !ok {
			return bad
		}
		m, _ := (*p).(*MapV)
		if m == nil {
			m = &MapV{idx: map[string]int{}, kt: u.Key()}
			*p = m
		}
		for i := range g.keys {
			k, v := it.zero(u.Key()), it.zero(u.Elem())
			if msg := it.gobFill(&k, u.Key(), g.keys[i]); msg != "" {
				return msg
			}
			if msg := it.gobFill(&v, u.Elem(), g.vals[i]); msg != "" {
				return msg
			}
			it.mapSet(m, k, v)
		}
	case *types.Interface:
		g, ok := tree.(gIface)
		if !ok {
			return bad
		}
		c := newCell(it.zero(g.t))
		if m := it.gobFill(c, g.t, g.v); m != "" {
			return m
		}
		*p = Iface{g.t, *c}
	default:
		return bad
	}
	return ""
}

func (it *Interp) unmarshaler(t types.Type) string {
	if isBigPtr(t) {
		return ""
	}
	for _, m := range []string{"GobDecode", "UnmarshalBinary"} {
		if it.P.methodByName(t, m) != nil {
			return m
		}
	}
	return ""
}

// ---------------------------------------------------------------- protobuf

func (it *Interp) pbEncode(x Iface) V {
	nilB := []V(nil)
	if x.t == nil {
		return Tuple{nilB, nilErr}
	}
	if it.P.methodByName(x.t, "MarshalBinary") != nil {
		return it.invoke(x, "MarshalBinary")
	}
	pt, ok := x.t.Underlying().(*types.Pointer)
	if !ok {
		return Tuple{nilB, it.errV("encode takes a pointer to struct")}
	}
	p, _ := x.v.(*V)
	if p == nil {
		return Tuple{nilB, it.errV("protobuf: nil pointer")}
	}
	g := it.pbMessage(pt.Elem(), *p)
	if e, ok := g.(gErr); ok {
		return Tuple{nilB, it.errV(e.msg)}
	}
	if len(g.(gStruct).names) == 0 {
		return Tuple{[]V{}, nilErr}
	}
	return Tuple{it.encTok("pb", g), nilErr}
}

// pbMessage: only fields that are transmitted appear.
func (it *Interp) pbMessage(t types.Type, v V) V {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return gErr{"protobuf: not a struct"}
	}
	s := v.(Struct)
	var g gStruct
	pub := false
	for i := range s {
		f := u.Field(i)
		if !f.Exported() {
			continue
		}
		pub = true
		x := it.pbValue(f.Type(), s[i])
		switch y := x.(type) {
		case gErr:
			return y
		case nil:
			continue
		case gList:
			if len(y.l) == 0 {
				continue
			}
		}
		g.names = append(g.names, f.Name())
		g.vals = append(g.vals, x)
	}
	if !pub && len(s) > 0 {
		return gErr{"struct has no serializable fields"}
	}
	return g
}

func (it *Interp) pbValue(t types.Type, v V) V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.Int, types.Int32, types.Int64, types.Uint32, types.Uint64, types.String, types.Float32, types.Float64:
			return leafInt(v)
		}
		return gErr{"unsupported field Kind"}
	case *types.Slice:
		l, _ := v.([]V)
		if isByteSlice(t) {
			return gBytes{append([]V{}, l...)}
		}
		var g gList
		for _, e := range l {
			x := it.pbValue(u.Elem(), e)
			switch y := x.(type) {
			case gErr:
				return y
			case nil:
				continue // a nil element leaves no trace
			}
			g.l = append(g.l, x)
		}
		return g
	case *types.Pointer:
		p, _ := v.(*V)
		if p == nil {
			return nil
		}
		return it.pbValue(u.Elem(), *p)
	case *types.Interface:
		x := v.(Iface)
		if x.t == nil {
			return nil
		}
		if it.P.methodByName(x.t, "MarshalBinary") != nil {
			r := it.invoke(x, "MarshalBinary").(Tuple)
			if r[1].(Iface).t != nil {
				return gErr{"marshal failed"}
			}
			return gBytes{append([]V{}, r[0].([]V)...)}
		}
		return it.pbValue(x.t, x.v)
	case *types.Struct:
		if it.P.methodByName(t, "MarshalBinary") != nil {
			r := it.invoke(Iface{t, v}, "MarshalBinary").(Tuple)
			return gBytes{append([]V{}, r[0].([]V)...)}
		}
		return it.pbMessage(t, v)
	}
	return gErr{"unsupported field type " + t.String()}
}

func (it *Interp) pbDecode(b []V, x Iface, cons *MapV) V {
	pt, ok := x.t.Underlying().(*types.Pointer)
	if !ok {
		return it.errV("decode: pointer expected")
	}
	p := it.deref(x.v)
	if len(b) == 0 {
		return nilErr
	}
	t := tokAt(b, 0)
	if t == nil || t.kind != "enc" || t.n != len(b) {
		for _, y := range b {
			if _, ok := y.(int64); !ok {
				if tb, ok := y.(TB); ok && tb.t.kind == "enc" {
					return it.errV("protobuf: garbage")
				}
				unsup("decoding of symbolic bytes")
			}
		}
		return it.errV("protobuf: garbage")
	}
	if t.enc.codec != "pb" {
		return it.errV("protobuf: wrong format")
	}
	if m := it.pbFill(p, pt.Elem(), t.enc.v, cons); m != "" {
		return it.errV(m)
	}
	return nilErr
}

func (it *Interp) pbFill(p *V, t types.Type, tree V, cons *MapV) string {
	bad := "protobuf: type mismatch decoding into " + t.String()
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch tree.(type) {
		case gBytes, gList, gStruct:
			return bad
		}
		*p = tree
	case *types.Slice:
		if isByteSlice(t) {
			g, ok := tree.(gBytes)
			if !ok {
				return bad
			}
			*p = append([]V{}, g.b...)
			return ""
		}
		g, ok := tree.(gList)
		if !ok {
			// a repeated field occurring once
			g = gList{[]V{tree}}
		}
		l, _ := (*p).([]V)
		for _, e := range g.l {
			c := newCell(it.zero(u.Elem()))
			if m := it.pbFill(c, u.Elem(), e, cons); m != "" {
				return m
			}
			l = append(l, *c)
		}
		*p = l
	case *types.Pointer:
		c := newCell(it.zero(u.Elem()))
		if m := it.pbFill(c, u.Elem(), tree, cons); m != "" {
			return m
		}
		*p = c
	case *types.Interface:
		g, ok := tree.(gBytes)
		if !ok {
			return bad
		}
		f := it.constructor(cons, t)
		if f == nil {
			return "no constructor for interface " + t.String()
		}
		r := it.call(it.top, f, nil, 0).(Iface)
		if r.t == nil {
			return "constructor returned nil"
		}
		if e := it.invoke(r, "UnmarshalBinary", append([]V{}, g.b...)).(Iface); e.t != nil {
			if o, ok := e.v.(*NativeObj); ok {
				return o.data.(string)
			}
			return "unmarshal failed"
		}
		*p = r
	case *types.Struct:
		g, ok := tree.(gStruct)
		if !ok {
			return bad
		}
		s := (*p).(Struct)
		for i := range s {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			for j, n := range g.names {
				if n == f.Name() {
					if m := it.pbFill(&s[i], f.Type(), g.vals[j], cons); m != "" {
						return m
					}
				}
			}
		}
	default:
		return bad
	}
	return ""
}

func (it *Interp) constructor(cons *MapV, t types.Type) V {
	if cons == nil {
		return nil
	}
	for i, k := range cons.keys {
		ki, ok := k.(Iface)
		if !ok {
			continue
		}
		o, ok := ki.v.(*NativeObj)
		if !ok || o.kind != "rtype" {
			continue
		}
		if types.Identical(o.data.(types.Type), t) {
			return cons.vals[i]
		}
	}
	return nil
}
