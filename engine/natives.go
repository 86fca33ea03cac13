package main

// Library functions modelled by the engine: randomness, hashes, encoders, network, text.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var nativeMethods = map[string]map[string]bool{
	"hash":   set("Write", "Sum", "Reset", "Size", "BlockSize"),
	"shake":  set("Message", "Partial", "KeySize", "HashSize", "Clone"),
	"error":  set("Error"),
	"gobenc": set("Encode"),
	"gobdec": set("Decode"),
	"conn":   set("Write", "Close", "Read", "WriteTo", "LocalAddr", "RemoteAddr", "SetDeadline"),
	"file":   set("Write", "WriteString", "Close", "Read"),
	"rtype":  set("Elem", "String", "Kind", "Name"),
	"cmd":    set("Output", "Run"),
	"mutex":  set("Lock", "Unlock", "RLock", "RUnlock"),
}

func set(l ...string) map[string]bool {
	m := map[string]bool{}
	for _, x := range l {
		m[x] = true
	}
	return m
}

func (it *Interp) errV(msg string) Iface {
	return Iface{nativeType("error"), &NativeObj{kind: "error", data: msg}}
}

var nilErr = Iface{}

// ---------------------------------------------------------------- random sources

// source classifies a cipher.Stream: 1 the real random stream (or a randomly keyed cipher), 2 keyed cipher.
func (it *Interp) source(v V) (int, *shake) {
	r, ok := v.(Iface)
	if !ok || r.t == nil {
		it.runtimePanic("invalid memory address or nil pointer dereference (nil stream)")
	}
	if strings.HasSuffix(r.t.String(), "random.randstream") {
		return 1, nil
	}
	if s, ok := r.v.(Struct); ok && len(s) == 1 {
		if cs, ok := s[0].(Iface); ok {
			if o, ok := cs.v.(*NativeObj); ok && o.kind == "shake" {
				sh := o.data.(*shake)
				if sh.random {
					return 1, nil
				}
				return 2, sh
			}
		}
	}
	unsup("random source of type %s", r.t)
	return 0, nil
}

type shake struct {
	random bool
	log    []V
}

func (c *Ctx) mark(name string) V {
	key := "mark/" + name
	t, ok := c.toks[key]
	if !ok {
		t = &Tok{id: len(c.toks), kind: "mark", n: 1, key: key}
		c.toks[key] = t
	}
	return TB{t, 0}
}

// take draws an integer in [lo,hi] from a source.
func (it *Interp) take(kind string, src V, lo, hi *big.Int) *Poly {
	k, sh := it.source(src)
	if k == 1 {
		if it.c.fixDraws && strings.HasPrefix(kind, "u") && kind != "u8" {
			return it.c.fixedDraw(kind, hi)
		}
		return it.c.draw(kind, lo, hi)
	}
	sh.log = append(sh.log, it.c.mark(kind+hi.Text(36)))
	p := it.c.oracle(kind, append([]V(nil), sh.log...), lo, hi)
	return p
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(b1, n) }

func init() {
	r := dedis + "random."
	reg(r+"Int", func(it *Interp, _ *frame, _ *ssa.Function, a []V) V {
		m := it.needConst(a[0], "bound of a random draw")
		if m.Cmp(b1) <= 0 {
			unsup("random draw below %s never ends", m)
		}
		return newBig(bigP(it.take("int", a[1], b1, new(big.Int).Sub(m, b1))))
	})
	reg(r+"Bool", func(it *Interp, _ *frame, _ *ssa.Function, a []V) V {
		p := it.take("bool", a[0], b0, b1)
		return formBool(it.c.mkEq(p.sub(pint(1))))
	})
	small := func(name string, bits uint, t types.Type) {
		reg(r+name, func(it *Interp, _ *frame, _ *ssa.Function, a []V) V {
			return it.mkInt(it.take(fmt.Sprintf("u%d", bits), a[0], b0, new(big.Int).Sub(pow2(bits), b1)), t)
		})
	}
	small("Byte", 8, types.Typ[types.Uint8])
	small("Uint8", 8, types.Typ[types.Uint8])
	small("Uint16", 16, types.Typ[types.Uint16])
	small("Uint32", 32, types.Typ[types.Uint32])
	small("Uint64", 64, types.Typ[types.Uint64])
	bytesOf := func(it *Interp, n int64, bits uint, src V) []V {
		if n == 0 {
			return []V{}
		}
		p := it.take(fmt.Sprintf("bits%d", bits), src, b0, new(big.Int).Sub(pow2(bits), b1))
		if n == 1 {
			return []V{&SInt{p}}
		}
		return it.c.tok("big", int(n), bigP(p)).bytes()
	}
	reg(r+"Bits", func(it *Interp, _ *frame, _ *ssa.Function, a []V) V {
		n := it.concInt(a[0], types.Typ[types.Uint])
		if it.truth(a[1]) {
			unsup("random.Bits with exact length")
		}
		return bytesOf(it, (n+7)/8, uint(n), a[2])
	})
	reg(r+"Bytes", func(it *Interp, _ *frame, _ *ssa.Function, a []V) V {
		n := it.concInt(a[0], types.Typ[types.Int])
		return bytesOf(it, n, uint(8*n), a[1])
	})
	reg("(*"+dedis+"random.randstream).XORKeyStream", func(it *Interp, _ *frame, _ *ssa.Function, a []V) V {
		dst, src := a[1].([]V), a[2].([]V)
		if len(dst) == 0 {
			return nil
		}
		for _, b := range src {
			if n, ok := b.(int64); !ok || n != 0 {
				// one-time pad: uniformly random whatever the source
				break
			}
		}
		p := it.c.draw(fmt.Sprintf("bits%d", 8*len(dst)), b0, new(big.Int).Sub(pow2(uint(8*len(dst))), b1))
		if len(dst) == 1 {
			dst[0] = &SInt{p}
		} else {
			copy(dst, it.c.tok("big", len(dst), bigP(p)).bytes())
		}
		return nil
	})
	reg("crypto/rand.Int", func(it *Interp, _ *frame, _ *ssa.Function, a []V) V {
		m := it.needConst(a[1], "bound of a random draw")
		return Tuple{newBig(bigP(it.c.draw("int", b0, new(big.Int).Sub(m, b1)))), nilErr}
	})
	reg("crypto/rand.Read", func(it *Interp, _ *frame, _ *ssa.Function, a []V) V {
		dst := a[0].([]V)
		p := it.c.draw(fmt.Sprintf("bits%d", 8*len(dst)), b0, new(big.Int).Sub(pow2(uint(8*len(dst))), b1))
		copy(dst, it.c.tok("big", len(dst), bigP(p)).bytes())
		return Tuple{int64(len(dst)), nilErr}
	})
	// a point picked at random: a uniformly random element of the prime-order group, or one with data embedded
	reg("(*"+dedis+"nist.residuePoint).Pick", func(it *Interp, _ *frame, fn *ssa.Function, a []V) V {
		st := (*it.deref(a[0])).(Struct)
		g := it.deref(st[1])
		P := it.needConst(firstBigPtr(*g), "group modulus")
		q := it.c.groupOrder(P)
		if q == nil {
			unsup("point picked in a group of unknown order")
		}
		e := it.take("point", a[2], b1, new(big.Int).Sub(q, b1))
		gr := it.c.grpExp(it.c.toGrp(bigC(bi(4)), P), e)
		st[0] = &BigVal{g: gr}
		data, _ := a[1].([]V)
		var rest V = []V(nil)
		if data != nil {
			n := (P.BitLen() - 24) / 8
			if len(data) < n {
				n = len(data)
			}
			it.c.embeds[gr.k()] = append([]V{}, data[:n]...)
			rest = data[n:]
		}
		pt := fn.Signature.Recv().Type()
		return Tuple{Iface{pt, a[0]}, rest}
	})
	reg("(*"+dedis+"nist.residuePoint).Data", func(it *Interp, _ *frame, fn *ssa.Function, a []V) V {
		st := (*it.deref(a[0])).(Struct)
		b := st[0].(*BigVal)
		if d, ok := it.c.embeds[b.k()]; ok && b.g != nil {
			return Tuple{append([]V{}, d...), nilErr}
		}
		unsup("data extracted from a point without embedded data")
		return nil
	})

	reg(dedis+"cipher/sha3.NewShakeCipher128", func(it *Interp, _ *frame, fn *ssa.Function, a []V) V {
		sh := &shake{}
		key, _ := a[0].([]V)
		if key == nil {
			sh.random = true
		} else {
			sh.log = append(append(sh.log, it.c.mark("key")), key...)
		}
		return Struct{Iface{nativeType("shake"), &NativeObj{kind: "shake", data: sh}}}
	})
	newHash := func(it *Interp, _ *frame, _ *ssa.Function, a []V) V {
		return Iface{nativeType("hash"), &NativeObj{kind: "hash", data: &hashState{}}}
	}
	reg("crypto/sha256.New", newHash)
	reg("crypto/sha256.Sum256", func(it *Interp, _ *frame, _ *ssa.Function, a []V) V {
		return Arr(it.digest(a[0].([]V)))
	})
	reg(dedis+"math.Sqrt", func(it *Interp, _ *frame, _ *ssa.Function, a []V) V {
		unsup("modular square root")
		return nil
	})
	reg("math.Sqrt", func(it *Interp, _ *frame, _ *ssa.Function, a []V) V {
		switch x := a[0].(type) {
		case float64:
			return math.Sqrt(x)
		case *symFloat:
			if x.sqrt {
				unsup("repeated square root")
			}
			return &symFloat{p: x.p, sqrt: true}
		}
		panic("math.Sqrt")
	})
	for _, n := range []string{"Floor", "Trunc"} {
		f := math.Floor
		if n == "Trunc" {
			f = math.Trunc
		}
		reg("math."+n, func(it *Interp, _ *frame, _ *ssa.Function, a []V) V {
			switch x := a[0].(type) {
			case float64:
				return f(x)
			case *symFloat:
				if x.sqrt {
					return &symFloat{p: it.c.sqrtOf(x.p)}
				}
				return x
			}
			panic("math.Floor")
		})
	}
}

func firstBigPtr(v V) V {
	s, ok := v.(Struct)
	if !ok {
		unsup("group parameters")
	}
	for _, f := range s {
		switch x := f.(type) {
		case *V:
			if x != nil {
				if _, ok := (*x).(*BigVal); ok {
					return x
				}
			}
		case Struct:
			if r := firstBigPtr(x); r != nil {
				return r
			}
		}
	}
	return nil
}

type hashState struct{ data []V }

func (it *Interp) digest(data []V) []V {
	p := it.c.oracle("sha", append([]V(nil), data...), b0, new(big.Int).Sub(two256, b1))
	return it.c.tok("big", 32, bigP(p)).bytes()
}

// ---------------------------------------------------------------- native objects

func (it *Interp) nativeMethod(o *NativeObj, name string, args []V) V {
	switch o.kind {
	case "hash":
		h := o.data.(*hashState)
		switch name {
		case "Write":
			b, _ := args[0].([]V)
			h.data = append(h.data[:len(h.data):len(h.data)], b...)
			return Tuple{int64(len(b)), nilErr}
		case "Sum":
			pre, _ := args[0].([]V)
			return append(append([]V{}, pre...), it.digest(h.data)...)
		case "Reset":
			h.data = nil
			return nil
		case "Size":
			return int64(32)
		case "BlockSize":
			return int64(64)
		}
	case "shake":
		s := o.data.(*shake)
		switch name {
		case "Partial", "Message":
			dst, _ := args[0].([]V)
			src, _ := args[1].([]V)
			key, _ := args[2].([]V)
			key = append([]V(nil), key...)
			if len(dst) > 0 {
				for _, b := range src {
					if n, ok := b.(int64); !ok || n != 0 {
						unsup("encryption of data by a stream cipher")
					}
				}
				hi := new(big.Int).Sub(pow2(uint(8*len(dst))), b1)
				kind := fmt.Sprintf("bits%d", 8*len(dst))
				var p *Poly
				if s.random {
					p = it.c.draw(kind, b0, hi)
				} else {
					s.log = append(s.log, it.c.mark(kind))
					p = it.c.oracle(kind, append([]V(nil), s.log...), b0, hi)
				}
				if len(dst) == 1 {
					dst[0] = &SInt{p}
				} else {
					copy(dst, it.c.tok("big", len(dst), bigP(p)).bytes())
				}
			}
			if len(key) > 0 {
				s.log = append(s.log, key...)
			}
			if name == "Message" {
				s.log = append(s.log, it.c.mark("end"))
			}
			return nil
		case "KeySize":
			return int64(16)
		case "HashSize":
			return int64(32)
		case "Clone":
			return Iface{nativeType("shake"), &NativeObj{kind: "shake", data: &shake{random: s.random, log: append([]V(nil), s.log...)}}}
		}
	case "error":
		if w, ok := o.data.(*wrapped); ok {
			return w.msg
		}
		return o.data.(string)
	case "listener":
		if f, ok := intrinsics["(*net.TCPListener)."+name]; ok {
			return f(it, nil, nil, append([]V{newCell(o)}, args...))
		}
	case "conn":
		cn := o.data.(*connObj)
		switch name {
		case "Write":
			b, _ := args[0].([]V)
			cn.data = append(cn.data, b...)
			it.c.sentRecs = append(it.c.sentRecs, sentRec{cn.addr, append([]V{}, b...)})
			return Tuple{int64(len(b)), nilErr}
		case "Close", "SetDeadline", "SetReadDeadline", "CloseWrite", "CloseRead":
			return nilErr
		case "Read":
			return it.connRead(cn, args[0])
		case "WriteTo":
			b := cn.in
			cn.in = nil
			if len(b) > 0 {
				it.invoke(args[0].(Iface), "Write", b)
			}
			return Tuple{int64(len(b)), nilErr}
		case "RemoteAddr", "LocalAddr":
			return it.connAddr(cn)
		}
	case "file":
		switch name {
		case "Read":
			if f, ok := o.data.(*connObj); ok {
				return it.connRead(f, args[0])
			}
			return it.stdin(args[0])
		case "Write", "WriteString":
			return Tuple{int64(0), nilErr}
		case "Close":
			return nilErr
		}
	case "rtype":
		t := o.data.(types.Type)
		switch name {
		case "Elem":
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				return it.rtype(u.Elem())
			case *types.Slice:
				return it.rtype(u.Elem())
			}
		case "String", "Name":
			return t.String()
		}
	case "gobenc":
		return it.gobEncode(o.data.(Iface), args[0].(Iface))
	case "gobdec":
		return it.gobDecode(o.data.(Iface), args[0].(Iface))
	case "cmd":
		return it.cmdOutput(o.data.([]string))
	case "mutex":
		return nil
	}
	unsup("method %s of %s", name, o.kind)
	return nil
}

type connObj struct {
	addr V
	data []V
	in   []V
}

type sentRec struct {
	addr V
	data []V
}

func (it *Interp) rtype(t types.Type) V {
	k := t.String()
	o, ok := it.c.rtypes[k]
	if !ok {
		o = &NativeObj{kind: "rtype", data: t}
		it.c.rtypes[k] = o
	}
	return Iface{nativeType("rtype"), o}
}

func (it *Interp) cmdOutput(args []string) V {
	// openssl prime -safe -generate -bits N
	bits := 0
	safe, gen := false, false
	for i, a := range args {
		switch a {
		case "-safe":
			safe = true
		case "-generate":
			gen = true
		case "-bits":
			if i+1 < len(args) {
				bits, _ = strconv.Atoi(args[i+1])
			}
		}
	}
	if len(args) < 2 || args[0] != "openssl" || args[1] != "prime" || !gen {
		unsup("external command %v", args)
	}
	it.c.cmds++
	if bits != 512 || !safe {
		it.c.badCmd = true
	}
	x := safePrimes[it.c.cmds%2]
	if bits == 512 && !safe {
		x = plainPrimes[it.c.cmds%2]
	}
	b := strBytes(x + "\n")
	return Tuple{b, nilErr}
}

// two fixed 512-bit safe primes stand for the output of openssl
var safePrimes = [2]string{
	"13087485718017359370504462950888567139203794163085135988960807279829438364557157310338372124836252106683625763814239599490457948624430768402411545281418683",
	"11636615416813609756011181788891120094432779214798115587818272879901300194982172815443773857451190570901776635067456650649472290146494711976171073558232167",
}
var plainPrimes = [2]string{
	"11378024692255900537342693914040064122641325873872302559160776923416413086357239339870657054381671147613767676844216132523126001292861616081996691258123259",
	"11804267908838045511486602081552974698901300286875461218334024431166984174767938585687814926082472097935765572053527916449609694603481010366011234998008509",
}

func (it *Interp) nativeGlobal(g *ssa.Global) (V, bool) {
	switch g.String() {
	case "os.Stderr", "os.Stdout", "os.Stdin":
		return newCell(&NativeObj{kind: "file"}), true
	case "io.EOF":
		return nil, false
	case "net.IPv4zero":
		return []V{int64(0), int64(0), int64(0), int64(0)}, true
	case "os.Args":
		return []V{"prog"}, true
	case "crypto/rand.Reader":
		return Iface{nativeType("file"), &NativeObj{kind: "file"}}, true
	}
	return nil, false
}

func newCell(v V) *V {
	p := new(V)
	*p = v
	return p
}

// ---------------------------------------------------------------- text, network, process

func (it *Interp) sprint(v V) []V {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return strBytes("<nil>")
		}
		if o, ok := x.v.(*NativeObj); ok && o.kind == "error" {
			return strBytes(it.nativeMethod(o, "Error", nil))
		}
		if _, isStr := x.t.Underlying().(*types.Basic); !isStr || x.t.String() != "string" {
			for _, m := range []string{"Error", "String"} {
				if f := it.P.methodByName(x.t, m); f != nil && f.Signature.Params().Len() == 0 && !isNil(x.v) {
					r := it.callFn(it.top, f, []V{x.v}, nil)
					return strBytes(r)
				}
				if isBigPtr(x.t) {
					return strBytes(it.bigString(it.bigOf(x.v)))
				}
			}
		}
		if b, ok := x.v.([]V); ok {
			if _, isB := x.t.Underlying().(*types.Slice); isB {
				out := strBytes("[")
				for i, e := range b {
					if i > 0 {
						out = append(out, int64(' '))
					}
					out = append(out, it.sprint(e)...)
				}
				return append(out, int64(']'))
			}
		}
		return it.sprint(x.v)
	case string, *SStr:
		return strBytes(x)
	case int64:
		return strBytes(strconv.FormatInt(x, 10))
	case bool:
		return strBytes(strconv.FormatBool(x))
	case float64:
		return strBytes(strconv.FormatFloat(x, 'g', -1, 64))
	case *SInt:
		return it.c.tok("dec", 20, bigP(x.p)).bytes()
	case TB:
		return it.c.tok("dec", 20, bigP(it.c.byteOf(x))).bytes()
	case *SBool:
		if it.c.decide(x.f) {
			return strBytes("true")
		}
		return strBytes("false")
	case *BigVal:
		return strBytes(it.bigString(x))
	case nil:
		return strBytes("<nil>")
	}
	unsup("text of a value of type %T", v)
	return nil
}

func isBigPtr(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	return ok && isBigInt(p.Elem())
}

func (it *Interp) sprintf(format string, args []V) V {
	var out []V
	k := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			out = append(out, int64(format[i]))
			continue
		}
		j := i + 1
		for j < len(format) && strings.ContainsRune("+-# 0123456789.", rune(format[j])) {
			j++
		}
		if j >= len(format) {
			break
		}
		verb := format[j]
		if verb == '%' {
			out = append(out, int64('%'))
			i = j
			continue
		}
		if k >= len(args) {
			out = append(out, strBytes("%!"+string(verb)+"(MISSING)")...)
			i = j
			continue
		}
		a := args[k]
		k++
		fl := format[i+1 : j]
		iv, isI := a.(Iface)
		conc := fl == ""
		if verb == 'w' {
			verb = 'v'
		}
		if b, ok := iv.v.([]V); ok && conc && verb == 's' && isByteSlice(iv.t) {
			out = append(out, b...)
			i = j
			continue
		}
		switch {
		case conc && (verb == 'v' || verb == 's' || verb == 'd'):
			out = append(out, it.sprint(a)...)
		case isI:
			switch x := iv.v.(type) {
			case int64:
				out = append(out, strBytes(fmt.Sprintf("%"+fl+string(verb), x))...)
			case string:
				out = append(out, strBytes(fmt.Sprintf("%"+fl+string(verb), x))...)
			case bool:
				out = append(out, strBytes(fmt.Sprintf("%"+fl+string(verb), x))...)
			case []V:
				if verb == 'x' && fl == "" {
					if b := it.c.parseBytes(x); b != nil && b.cst() == nil {
						out = append(out, it.c.tok("hex", 2*len(x)+1, b).bytes()...)
						break
					}
				}
				buf := make([]byte, len(x))
				for q, e := range x {
					n, ok := e.(int64)
					if !ok {
						unsup("formatted text of symbolic bytes")
					}
					buf[q] = byte(n)
				}
				out = append(out, strBytes(fmt.Sprintf("%"+fl+string(verb), buf))...)
			default:
				if verb == 'T' {
					out = append(out, strBytes(iv.t.String())...)
				} else if verb == 'v' || verb == 's' || verb == 'q' {
					out = append(out, it.sprint(a)...)
				} else if verb == 'x' && isBigPtr(iv.t) {
					out = append(out, it.c.tok("hex", 20, it.bigOf(iv.v)).bytes()...)
				} else {
					unsup("format %%%s%c", fl, verb)
				}
			}
		}
		i = j
	}
	return mkStr(out)
}

func (it *Interp) quiet(f func() V) (r V) {
	// text for diagnostics only: never a reason to give up
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(Unsup); ok {
				r = "<text>"
				return
			}
			panic(x)
		}
	}()
	return f()
}

func (it *Interp) fatal(msg V) {
	panic(exitPath{fmt.Sprint(msg)})
}

func init() {
	s := func(key string, f func(it *Interp, a []V) V) {
		reg(key, func(it *Interp, _ *frame, _ *ssa.Function, a []V) V { return f(it, a) })
	}
	okWrite := func(it *Interp, a []V) V { return Tuple{int64(0), nilErr} }
	for _, n := range []string{"Println", "Printf", "Print"} {
		s("fmt."+n, okWrite)
		nn := n
		s("fmt.F"+strings.ToLower(n[:1])+n[1:], func(it *Interp, a []V) V {
			w, _ := a[0].(Iface)
			if o, ok := w.v.(*NativeObj); ok && o.kind == "file" {
				return Tuple{int64(0), nilErr}
			}
			if p, ok := w.v.(*V); ok && p != nil {
				if o, ok := (*p).(*NativeObj); ok && o.kind == "file" {
					return Tuple{int64(0), nilErr}
				}
			}
			var txt V
			switch nn {
			case "Printf":
				f, _ := a[1].(string)
				txt = it.sprintf(f, a[2].([]V))
			default:
				txt = it.joined(a[1].([]V), nn == "Println")
			}
			it.invoke(w, "Write", strBytes(txt))
			return Tuple{int64(0), nilErr}
		})
		s("log."+n, func(it *Interp, a []V) V { return nil })
	}
	s("fmt.Sprintf", func(it *Interp, a []V) V {
		f, ok := a[0].(string)
		if !ok {
			unsup("symbolic format")
		}
		l, _ := a[1].([]V)
		return it.sprintf(f, l)
	})
	s("fmt.Sprint", func(it *Interp, a []V) V { l, _ := a[0].([]V); return it.joined(l, false) })
	s("fmt.Sprintln", func(it *Interp, a []V) V { l, _ := a[0].([]V); return it.joined(l, true) })
	s("fmt.Errorf", func(it *Interp, a []V) V {
		f, _ := a[0].(string)
		l, _ := a[1].([]V)
		m := it.quiet(func() V { return it.sprintf(f, l) })
		t, ok := m.(string)
		if !ok {
			t = "<text>"
		}
		var in []Iface
		if strings.Contains(f, "%w") {
			for _, x := range l {
				if e, ok := x.(Iface); ok && e.t != nil {
					if o, ok := e.v.(*NativeObj); ok && o.kind == "error" || !ok && it.P.methodByName(e.t, "Error") != nil {
						in = append(in, e)
					}
				}
			}
		}
		if len(in) == 0 {
			return it.errV(t)
		}
		return Iface{nativeType("error"), &NativeObj{kind: "error", data: &wrapped{t, in}}}
	})
	for _, n := range []string{"Fatal", "Fatalf", "Fatalln"} {
		s("log."+n, func(it *Interp, a []V) V { it.fatal("log.Fatal"); return nil })
	}
	for _, n := range []string{"Panic", "Panicf", "Panicln"} {
		s("log."+n, func(it *Interp, a []V) V {
			panic(targetPanic{Iface{types.Typ[types.String], "log.Panic"}})
		})
	}
	s("os.Exit", func(it *Interp, a []V) V { it.fatal("os.Exit"); return nil })
	s("os.Open", func(it *Interp, a []V) V { // the repository's files, when the harness wants them; else none
		if n, ok := a[0].(string); ok && it.c.files && !filepath.IsAbs(n) {
			if b, err := os.ReadFile(filepath.Join(it.P.repo, n)); err == nil {
				return Tuple{newCell(&NativeObj{kind: "file", data: &connObj{in: strBytes(string(b))}}), nilErr}
			}
		}
		return Tuple{(*V)(nil), it.errV("open: no such file")}
	})
	s("os/exec.Command", func(it *Interp, a []V) V {
		var l []string
		n, _ := a[0].(string)
		l = append(l, n)
		rest, _ := a[1].([]V)
		for _, x := range rest {
			y, ok := x.(string)
			if !ok {
				unsup("symbolic command")
			}
			l = append(l, y)
		}
		return newCell(&NativeObj{kind: "cmd", data: l})
	})
	s("(*os/exec.Cmd).Output", func(it *Interp, a []V) V {
		return it.cmdOutput((*it.deref(a[0])).(*NativeObj).data.([]string))
	})
	// locks: the state is the number of readers, or -1 for a writer. Code that runs in the middle of
	// something else cannot go on while that holds the lock: there is no such schedule.
	take := func(it *Interp, a []V, busy func(n int64) bool, to func(n int64) int64) bool {
		p := it.deref(a[0])
		n := int64(0)
		if o, ok := (*p).(*NativeObj); ok && o.kind == "lock" {
			n = o.data.(int64)
		}
		if busy(n) {
			return false
		}
		*p = &NativeObj{kind: "lock", data: to(n)}
		return true
	}
	taken := func(n int64) bool { return n != 0 }
	written := func(n int64) bool { return n < 0 }
	lock := func(busy func(int64) bool, to func(int64) int64) func(*Interp, []V) V {
		return func(it *Interp, a []V) V {
			for !take(it, a, busy, to) {
				it.block("a lock", func() bool {
					o, ok := (*it.deref(a[0])).(*NativeObj)
					return !ok || o.kind != "lock" || !busy(o.data.(int64))
				})
			}
			return nil
		}
	}
	unlock := func(free func(int64) bool, to func(int64) int64) func(*Interp, []V) V {
		return func(it *Interp, a []V) V {
			if !take(it, a, free, to) {
				panic(exitPath{"unlock of unlocked mutex"})
			}
			return nil
		}
	}
	try := func(busy func(int64) bool, to func(int64) int64) func(*Interp, []V) V {
		return func(it *Interp, a []V) V { return take(it, a, busy, to) }
	}
	one, zero, more, less := func(int64) int64 { return -1 }, func(int64) int64 { return 0 }, func(n int64) int64 { return n + 1 }, func(n int64) int64 { return n - 1 }
	for _, t := range []string{"(*sync.Mutex)", "(*sync.RWMutex)"} {
		s(t+".Lock", lock(taken, one))
		s(t+".TryLock", try(taken, one))
		s(t+".Unlock", unlock(func(n int64) bool { return n >= 0 }, zero))
	}
	s("(*sync.RWMutex).RLock", lock(written, more))
	s("(*sync.RWMutex).TryRLock", try(written, more))
	s("(*sync.RWMutex).RUnlock", unlock(func(n int64) bool { return n <= 0 }, less))
	s("(*sync.Once).Do", func(it *Interp, a []V) V {
		p := it.deref(a[0])
		if o, ok := (*p).(*NativeObj); ok && o.kind == "once" {
			return nil
		}
		*p = &NativeObj{kind: "once"}
		it.call(it.top, a[1], nil, token.NoPos)
		return nil
	})
	// network
	s("net.DialTCP", func(it *Interp, a []V) V {
		if isNil(a[2]) {
			return Tuple{(*V)(nil), it.errV("dial tcp: missing address")}
		}
		ad := it.tcpString(a[2])
		return Tuple{newCell(&NativeObj{kind: "conn", data: &connObj{addr: ad}}), nilErr}
	})
	s("net.Dial", func(it *Interp, a []V) V {
		return Tuple{Iface{nativeType("conn"), &NativeObj{kind: "conn", data: &connObj{addr: a[1]}}}, nilErr}
	})
	s("(*net.conn).Write", func(it *Interp, a []V) V {
		return it.nativeMethod((*it.deref(a[0])).(*NativeObj), "Write", a[1:])
	})
	s("(*net.conn).Close", func(it *Interp, a []V) V { it.deref(a[0]); return nilErr })
	s("net.ResolveTCPAddr", func(it *Interp, a []V) V {
		st, ok := a[1].(string)
		if !ok {
			unsup("symbolic network address")
		}
		if st == "" || st == "<nil>" {
			return Tuple{(*V)(nil), it.errV("missing address")}
		}
		host, port, err := net.SplitHostPort(st)
		if err != nil {
			return Tuple{(*V)(nil), it.errV("bad address")}
		}
		if port == "" {
			port = "0"
		}
		pn, err := strconv.Atoi(port)
		if err != nil {
			return Tuple{(*V)(nil), it.errV("unknown port")}
		}
		ip := parseIP(host)
		if ip == nil && host != "" {
			return Tuple{(*V)(nil), it.errV("no such host")}
		}
		if pn < 0 || pn > 65535 {
			return Tuple{(*V)(nil), it.errV("invalid port")}
		}
		return Tuple{newCell(Struct{ip, int64(pn), ""}), nilErr}
	})
	s("(*net.TCPAddr).String", func(it *Interp, a []V) V { return it.tcpString(a[0]) })
	s("(*net.TCPAddr).Network", func(it *Interp, a []V) V { return "tcp" })
	s("net.ParseIP", func(it *Interp, a []V) V {
		st, _ := a[0].(string)
		return parseIP(st)
	})
	s("(net.IP).Equal", func(it *Interp, a []V) V {
		return ipIn(a[0]).Equal(ipIn(a[1]))
	})
	for n, is := range map[string]func(net.IP) bool{"IsLoopback": net.IP.IsLoopback, "IsUnspecified": net.IP.IsUnspecified, "IsPrivate": net.IP.IsPrivate, "IsMulticast": net.IP.IsMulticast, "IsGlobalUnicast": net.IP.IsGlobalUnicast, "IsLinkLocalUnicast": net.IP.IsLinkLocalUnicast} {
		is := is
		s("(net.IP)."+n, func(it *Interp, a []V) V { return is(ipIn(a[0])) })
	}
	s("(net.IP).To4", func(it *Interp, a []V) V { return ipOut(ipIn(a[0]).To4()) })
	s("(net.IP).To16", func(it *Interp, a []V) V { return ipOut(ipIn(a[0]).To16()) })
	s("(net.IP).String", func(it *Interp, a []V) V {
		return ipIn(a[0]).String()
	})
	s("reflect.TypeOf", func(it *Interp, a []V) V {
		x := a[0].(Iface)
		if x.t == nil {
			return Iface{}
		}
		return it.rtype(x.t)
	})
	s("reflect.DeepEqual", func(it *Interp, a []V) V {
		unsup("reflect.DeepEqual")
		return nil
	})
	s(dedis+"abstract.Read", func(it *Interp, a []V) V {
		return it.absRead(a[0].(Iface), a[1].(Iface), a[2].(Iface))
	})
	s(dedis+"abstract.Write", func(it *Interp, a []V) V {
		return it.absWrite(a[0].(Iface), a[1].(Iface))
	})
	s(dedis+"subtle.ConstantTimeAllEq", func(it *Interp, a []V) V { unsup("subtle"); return nil })
	s("crypto/subtle.ConstantTimeCompare", func(it *Interp, a []V) V {
		if it.c.decide(it.c.bytesEq(a[0].([]V), a[1].([]V))) {
			return int64(1)
		}
		return int64(0)
	})
	s("encoding/gob.Register", func(it *Interp, a []V) V {
		x := a[0].(Iface)
		if x.t != nil {
			it.c.gobReg[x.t.String()] = true
		}
		return nil
	})
	s("encoding/gob.RegisterName", func(it *Interp, a []V) V {
		x := a[1].(Iface)
		it.c.gobReg[x.t.String()] = true
		return nil
	})
	s("encoding/gob.NewEncoder", func(it *Interp, a []V) V {
		return newCell(&NativeObj{kind: "gobenc", data: a[0].(Iface)})
	})
	s("encoding/gob.NewDecoder", func(it *Interp, a []V) V {
		return newCell(&NativeObj{kind: "gobdec", data: a[0].(Iface)})
	})
	s("(*encoding/gob.Encoder).Encode", func(it *Interp, a []V) V {
		return it.gobEncode((*it.deref(a[0])).(*NativeObj).data.(Iface), a[1].(Iface))
	})
	s("(*encoding/gob.Decoder).Decode", func(it *Interp, a []V) V {
		return it.gobDecode((*it.deref(a[0])).(*NativeObj).data.(Iface), a[1].(Iface))
	})
	s("go.dedis.ch/protobuf.Encode", func(it *Interp, a []V) V { return it.pbEncode(a[0].(Iface)) })
	s("go.dedis.ch/protobuf.DecodeWithConstructors", func(it *Interp, a []V) V {
		m, _ := a[2].(*MapV)
		return it.pbDecode(a[0].([]V), a[1].(Iface), m)
	})
	s("go.dedis.ch/protobuf.Decode", func(it *Interp, a []V) V {
		return it.pbDecode(a[0].([]V), a[1].(Iface), nil)
	})
	s("runtime.GC", func(it *Interp, a []V) V { return nil })
	s("runtime/debug.PrintStack", func(it *Interp, a []V) V { return nil })
}

func (it *Interp) joined(l []V, sp bool) V {
	var out []V
	for i, x := range l {
		if i > 0 && sp {
			out = append(out, int64(' '))
		}
		out = append(out, it.sprint(x)...)
	}
	if sp {
		out = append(out, int64('\n'))
	}
	return mkStr(out)
}

func parseIP(s string) []V {
	if s == "localhost" {
		s = "127.0.0.1"
	}
	return ipOut(net.ParseIP(s))
}

// ipOut is an address of Go as one of the program, and ipIn the other way round.
func ipOut(ip net.IP) []V {
	if ip == nil {
		return nil
	}
	r := make([]V, len(ip))
	for i, x := range ip {
		r[i] = int64(x)
	}
	return r
}

func ipIn(v V) net.IP {
	l, _ := v.([]V)
	if l == nil {
		return nil
	}
	r := make(net.IP, len(l))
	for i, x := range l {
		n, ok := x.(int64)
		if !ok {
			unsup("symbolic network address")
		}
		r[i] = byte(n)
	}
	return r
}

func (it *Interp) tcpString(v V) V {
	p, _ := v.(*V)
	if p == nil {
		return "<nil>"
	}
	s := (*p).(Struct)
	pt, ok := s[1].(int64)
	if !ok {
		unsup("symbolic port")
	}
	return (&net.TCPAddr{IP: ipIn(s[0]), Port: int(pt)}).String()
}

// ---------------------------------------------------------------- dedis abstract.Read / Write (reflection walkers)

func (it *Interp) marshaling(t types.Type) bool {
	for _, m := range []string{"MarshalBinary", "UnmarshalBinary", "String", "MarshalSize", "MarshalTo", "UnmarshalFrom"} {
		if it.P.methodByName(t, m) == nil {
			return false
		}
	}
	return true
}

func (it *Interp) absRead(r, obj, g Iface) V {
	if obj.t == nil {
		it.runtimePanic("reflect: call of reflect.Value.Interface on zero Value")
	}
	c := newCell(obj.v)
	return it.readVal(r, c, obj.t, g)
}

func (it *Interp) readVal(r Iface, cell *V, t types.Type, g Iface) V {
	if i, isI := t.Underlying().(*types.Interface); isI {
		_ = i
		cur := (*cell).(Iface)
		if cur.t == nil {
			switch {
			case strings.HasSuffix(t.String(), "crypto/abstract.Secret"):
				*cell = it.invoke(g, "Secret")
			case strings.HasSuffix(t.String(), "crypto/abstract.Point"):
				*cell = it.invoke(g, "Point")
			default:
				panic(targetPanic{Iface{types.Typ[types.String], "unsupported null pointer type: " + t.String()}})
			}
			cur = (*cell).(Iface)
		}
		if it.marshaling(cur.t) {
			return it.invoke(cur, "UnmarshalFrom", r).(Tuple)[1]
		}
		return it.readVal(r, newCell(cur.v), cur.t, g)
	}
	if it.marshaling(t) {
		return it.invoke(Iface{t, *cell}, "UnmarshalFrom", r).(Tuple)[1]
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, _ := (*cell).(*V)
		if p == nil {
			panic(targetPanic{Iface{types.Typ[types.String], "null pointer"}})
		}
		return it.readVal(r, p, u.Elem(), g)
	case *types.Struct:
		s := (*cell).(Struct)
		for i := range s {
			if !u.Field(i).Exported() {
				it.runtimePanic("reflect: cannot return value obtained from unexported field or method")
			}
			if e := it.readVal(r, &s[i], u.Field(i).Type(), g); e.(Iface).t != nil {
				return e
			}
		}
	case *types.Array:
	case *types.Slice:
		s, _ := (*cell).([]V)
		for i := range s {
			if e := it.readVal(r, &s[i], u.Elem(), g); e.(Iface).t != nil {
				return e
			}
		}
	default:
		return it.errV("binary.Read: invalid type")
	}
	return nilErr
}

func (it *Interp) absWrite(w, obj Iface) V {
	if obj.t == nil {
		return nilErr
	}
	if it.marshaling(obj.t) {
		return it.invoke(obj, "MarshalTo", w).(Tuple)[1]
	}
	switch u := obj.t.Underlying().(type) {
	case *types.Pointer:
		p := it.deref(obj.v)
		return it.absWrite(w, it.asIface(*p, u.Elem()))
	case *types.Struct:
		s := obj.v.(Struct)
		for i := range s {
			if !u.Field(i).Exported() {
				it.runtimePanic("reflect: cannot return value obtained from unexported field or method")
			}
			if e := it.absWrite(w, it.asIface(s[i], u.Field(i).Type())); e.(Iface).t != nil {
				return e
			}
		}
	case *types.Array:
	case *types.Slice:
		s, _ := obj.v.([]V)
		for _, x := range s {
			if e := it.absWrite(w, it.asIface(x, u.Elem())); e.(Iface).t != nil {
				return e
			}
		}
	default:
		unsup("abstract.Write of %s", obj.t)
	}
	return nilErr
}

func (it *Interp) asIface(v V, t types.Type) Iface {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v.(Iface)
	}
	return Iface{t, v}
}
