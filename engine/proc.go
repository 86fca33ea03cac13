package main

import (
	"go/types"
	"net"
	"runtime"

	"golang.org/x/tools/go/ssa"
)

// Goroutines of the program under test. One runs at a time; a goroutine gives way when it waits: for a
// connection, and, when the harness started it as a process of its own, for a line of input or for time to pass.

type proc struct {
	id     int
	own    bool // started by the harness
	state  string
	resume chan resumeMsg
	yield  chan any
	top    *frame
	depth  int
	ready  func() bool
}

type resumeMsg struct {
	kill bool
	data V
}

type lstObj struct {
	ip     V
	port   int64
	waiter *proc
	queue  []V
	closed bool
}

func (l *lstObj) text() string {
	return (&net.TCPAddr{IP: ipIn(l.ip), Port: int(l.port)}).String()
}

type finished struct{}

func (it *Interp) spawn(own bool, f func()) *proc {
	p := &proc{id: len(it.c.procs), own: own, resume: make(chan resumeMsg), yield: make(chan any), state: "new"}
	it.c.procs = append(it.c.procs, p)
	go func() {
		var out any = finished{}
		defer func() {
			if r := recover(); r != nil {
				out = r
			}
			p.state = "done"
			p.yield <- out
		}()
		m := <-p.resume
		if m.kill {
			return
		}
		it.top, it.depth = nil, 0
		f()
	}()
	it.transfer(p, nil)
	return p
}

// transfer lets p run until it waits or ends.
func (it *Interp) transfer(p *proc, data V) {
	top, depth, cur := it.top, it.depth, it.cur
	it.cur = p
	p.resume <- resumeMsg{data: data}
	r := <-p.yield
	it.top, it.depth, it.cur = top, depth, cur
	switch r.(type) {
	case nil, finished:
	default:
		panic(r)
	}
	if cur == nil {
		it.wake()
	}
}

// wake lets the goroutines run whose condition has come true.
func (it *Interp) wake() {
	for again := true; again; {
		again = false
		for _, p := range it.c.procs {
			if p.state == "blocked" && p.ready() {
				it.transfer(p, nil)
				again = true
			}
		}
	}
}

// block waits until a condition holds that another goroutine brings about.
func (it *Interp) block(what string, ready func() bool) {
	if ready() {
		return
	}
	if it.c.interrupting {
		panic(pathEnd{"waits for " + what})
	}
	if it.cur != nil {
		it.cur.ready = ready
		it.park("blocked")
		return
	}
	it.wake()
	if !ready() {
		it.runtimePanic("all goroutines are asleep - deadlock!")
	}
}

// pause lets time pass.
func (it *Interp) pause() {
	if it.cur != nil && it.cur.own {
		it.park("sleep")
	}
}

func (it *Interp) park(state string) V {
	p := it.cur
	p.state, p.top, p.depth = state, it.top, it.depth
	p.yield <- nil
	m := <-p.resume
	if m.kill {
		runtime.Goexit()
	}
	it.top, it.depth = p.top, p.depth
	p.state = "running"
	return m.data
}

func (it *Interp) killProcs() {
	for _, p := range it.c.procs {
		if p.state != "done" {
			p.resume <- resumeMsg{kill: true}
			<-p.yield
		}
	}
}

func (it *Interp) lst(v V) *lstObj {
	o, ok := (*it.deref(v)).(*NativeObj)
	if !ok || o.kind != "listener" {
		unsup("listener")
	}
	return o.data.(*lstObj)
}

func init() {
	nativeMethods["listener"] = set("Accept", "AcceptTCP", "Close", "Addr", "SetDeadline")
	s := func(key string, f func(it *Interp, a []V) V) {
		reg(key, func(it *Interp, _ *frame, _ *ssa.Function, a []V) V { return f(it, a) })
	}
	listen := func(it *Interp, ip V, port int64) V {
		for _, l := range it.c.listeners {
			if port != 0 && l.port == port && !l.closed {
				return Tuple{(*V)(nil), it.errV("bind: address already in use")}
			}
		}
		if port == 0 {
			port = int64(40001 + len(it.c.listeners))
		}
		l := &lstObj{ip: ip, port: port}
		it.c.listeners = append(it.c.listeners, l)
		return Tuple{newCell(&NativeObj{kind: "listener", data: l}), nilErr}
	}
	s("net.ListenTCP", func(it *Interp, a []V) V {
		if isNil(a[1]) {
			return listen(it, []V(nil), 0)
		}
		st := (*it.deref(a[1])).(Struct)
		port, ok := st[1].(int64)
		if !ok {
			unsup("symbolic port")
		}
		return listen(it, st[0], port)
	})
	accept := func(it *Interp, a []V) *NativeObj {
		l := it.lst(a[0])
		if it.cur == nil {
			unsup("accepting connections on the main goroutine of a check")
		}
		var d V
		if len(l.queue) > 0 {
			d, l.queue = l.queue[0], l.queue[1:]
		} else {
			l.waiter = it.cur
			d = it.park("accept")
			l.waiter = nil
		}
		b, _ := d.([]V)
		return &NativeObj{kind: "conn", data: &connObj{addr: "127.0.0.1:5", in: append([]V{}, b...)}}
	}
	s("(*net.TCPListener).AcceptTCP", func(it *Interp, a []V) V { return Tuple{newCell(accept(it, a)), nilErr} })
	netType := func(it *Interp, name string) types.Type {
		return types.NewPointer(it.P.prog.ImportedPackage("net").Pkg.Scope().Lookup(name).Type())
	}
	s("(*net.TCPListener).Accept", func(it *Interp, a []V) V {
		return Tuple{Iface{netType(it, "TCPConn"), newCell(accept(it, a))}, nilErr}
	})
	s("net.Listen", func(it *Interp, a []V) V {
		t := intrinsics["net.ResolveTCPAddr"](it, nil, nil, a).(Tuple)
		if isNil(t[0]) {
			return Tuple{Iface{}, t[1]}
		}
		st := (*it.deref(t[0])).(Struct)
		r := listen(it, st[0], st[1].(int64)).(Tuple)
		if !isNil(r[0]) {
			r[0] = Iface{netType(it, "TCPListener"), r[0]}
		} else {
			r[0] = Iface{}
		}
		return r
	})
	s("(*net.TCPListener).Close", func(it *Interp, a []V) V { it.lst(a[0]).closed = true; return nilErr })
	s("(*net.TCPListener).Addr", func(it *Interp, a []V) V {
		l := it.lst(a[0])
		return Iface{netType(it, "TCPAddr"), newCell(Struct{l.ip, l.port, ""})}
	})
	for _, n := range []string{"Write", "Read", "Close", "SetDeadline", "WriteTo", "RemoteAddr"} {
		n := n
		for _, t := range []string{"(*net.conn).", "(*net.TCPConn)."} {
			if t+n == "(*net.conn).Close" || t+n == "(*net.conn).Write" {
				continue
			}
			s(t+n, func(it *Interp, a []V) V {
				return it.nativeMethod((*it.deref(a[0])).(*NativeObj), n, a[1:])
			})
		}
	}
	for _, n := range []string{"SetReadDeadline", "SetWriteDeadline", "SetKeepAlive", "SetNoDelay", "CloseWrite", "CloseRead"} {
		s("(*net.TCPConn)."+n, func(it *Interp, a []V) V { return nilErr })
		s("(*net.conn)."+n, func(it *Interp, a []V) V { return nilErr })
	}
	for _, n := range []string{"Read", "Close", "Write", "WriteString"} {
		n := n
		s("(*os.File)."+n, func(it *Interp, a []V) V {
			return it.nativeMethod((*it.deref(a[0])).(*NativeObj), n, a[1:])
		})
	}
	s("time.Sleep", func(it *Interp, a []V) V {
		it.pause()
		return nil
	})
	timer := func(it *Interp, a []V, tick bool) *chanV {
		return &chanV{timer: true, tick: tick, cap: 1}
	}
	s("time.After", func(it *Interp, a []V) V { return timer(it, a, false) })
	s("time.Tick", func(it *Interp, a []V) V { return timer(it, a, true) })
	for n, tick := range map[string]bool{"NewTimer": false, "NewTicker": true} {
		n, tick := n, tick
		reg("time."+n, func(it *Interp, _ *frame, fn *ssa.Function, a []V) V {
			st := it.zero(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()).(Struct)
			st[0] = timer(it, a, tick)
			return newCell(st)
		})
	}
	stop := func(it *Interp, a []V) V {
		c := asChan((*it.deref(a[0])).(Struct)[0])
		was := c.timer
		c.timer = false
		return was
	}
	s("(*time.Timer).Stop", stop)
	s("(*time.Ticker).Stop", func(it *Interp, a []V) V { stop(it, a); return nil })
	again := func(it *Interp, a []V) V {
		c := asChan((*it.deref(a[0])).(Struct)[0])
		was := c.timer
		c.timer, c.q = true, nil
		return was
	}
	s("(*time.Timer).Reset", again)
	s("(*time.Ticker).Reset", func(it *Interp, a []V) V { again(it, a); return nil })
	// waiting for other goroutines
	s("sync.NewCond", func(it *Interp, a []V) V { return newCell(&NativeObj{kind: "cond", data: &condObj{l: a[0]}}) })
	cond := func(it *Interp, a []V) *condObj {
		p := it.deref(a[0])
		if o, ok := (*p).(*NativeObj); ok {
			return o.data.(*condObj)
		}
		c := &condObj{l: (*p).(Struct)[1]}
		*p = &NativeObj{kind: "cond", data: c}
		return c
	}
	s("(*sync.Cond).Wait", func(it *Interp, a []V) V {
		c := cond(it, a)
		it.invoke(c.l.(Iface), "Unlock")
		n := c.n
		it.block("a condition", func() bool { return c.n != n })
		it.invoke(c.l.(Iface), "Lock")
		return nil
	})
	for _, n := range []string{"Signal", "Broadcast"} {
		s("(*sync.Cond)."+n, func(it *Interp, a []V) V { cond(it, a).n++; return nil })
	}
	group := func(it *Interp, a []V) *int64 {
		p := it.deref(a[0])
		if o, ok := (*p).(*NativeObj); ok && o.kind == "group" {
			return o.data.(*int64)
		}
		n := new(int64)
		*p = &NativeObj{kind: "group", data: n}
		return n
	}
	add := func(it *Interp, a []V, d int64) {
		n := group(it, a)
		*n += d
		if *n < 0 {
			it.runtimePanic("sync: negative WaitGroup counter")
		}
	}
	s("(*sync.WaitGroup).Add", func(it *Interp, a []V) V {
		d, ok := a[1].(int64)
		if !ok {
			unsup("symbolic number of goroutines")
		}
		add(it, a, d)
		return nil
	})
	s("(*sync.WaitGroup).Done", func(it *Interp, a []V) V { add(it, a, -1); return nil })
	s("(*sync.WaitGroup).Wait", func(it *Interp, a []V) V {
		n := group(it, a)
		it.block("goroutines", func() bool { return *n == 0 })
		return nil
	})
	s("(*sync.WaitGroup).Go", func(it *Interp, a []V) V {
		add(it, a, 1)
		it.spawn(false, func() {
			it.call(nil, a[1], nil, 0)
			add(it, a, -1)
		})
		return nil
	})
	api := func(name string, f func(it *Interp, a []V) V) {
		symAPI[name] = func(it *Interp, _ *frame, _ *ssa.Function, a []V) V { return f(it, a) }
	}
	at := func(it *Interp, v V) *proc {
		i, ok := v.(int64)
		if !ok || int(i) >= len(it.c.procs) {
			panic("no such process")
		}
		return it.c.procs[i]
	}
	api("Files", func(it *Interp, a []V) V { it.c.files = a[0].(bool); return nil })
	api("Spawn", func(it *Interp, a []V) V {
		p := it.spawn(true, func() { it.call(nil, a[0], nil, 0) })
		return int64(p.id)
	})
	api("Where", func(it *Interp, a []V) V { return at(it, a[0]).state })
	api("Resume", func(it *Interp, a []V) V {
		p := at(it, a[0])
		switch p.state {
		case "sleep":
			it.transfer(p, nil)
		case "stdin":
			it.transfer(p, append(strBytes(a[1]), int64('\n')))
		default:
			panic("process does not wait: " + p.state)
		}
		return nil
	})
	api("Listeners", func(it *Interp, a []V) V { return int64(len(it.c.listeners)) })
	api("ListenAddr", func(it *Interp, a []V) V { return it.c.listeners[a[0].(int64)].text() })
	api("Accepting", func(it *Interp, a []V) V {
		l := it.c.listeners[a[0].(int64)]
		return l.waiter != nil && !l.closed
	})
	api("Feed", func(it *Interp, a []V) V {
		l := it.c.listeners[a[0].(int64)]
		if l.waiter == nil || l.closed {
			l.queue = append(l.queue, a[1])
			return nil
		}
		it.transfer(l.waiter, a[1])
		return nil
	})
}

// stdin reads a line into b.
func (it *Interp) stdin(b V) V {
	if it.cur == nil || !it.cur.own {
		unsup("reading the standard input")
	}
	line := it.park("stdin").([]V)
	dst, _ := b.([]V)
	if len(dst) < len(line) {
		unsup("small input buffer")
	}
	for i := range line {
		storeV(&dst[i], line[i])
	}
	return Tuple{int64(len(line)), nilErr}
}

// connRead is Read on a connection that was accepted.
func (it *Interp) connRead(cn *connObj, b V) V {
	dst, _ := b.([]V)
	if len(cn.in) == 0 {
		for _, p := range it.P.prog.AllPackages() {
			if p.Pkg.Path() == "io" {
				return Tuple{int64(0), *it.global(p.Var("EOF"))}
			}
		}
		unsup("io.EOF")
	}
	n := 0
	for n < len(dst) && n < len(cn.in) {
		storeV(&dst[n], cn.in[n])
		n++
	}
	cn.in = cn.in[n:]
	return Tuple{int64(n), nilErr}
}

type condObj struct {
	l V
	n int64
}

func (it *Interp) connAddr(cn *connObj) V {
	t := intrinsics["net.ResolveTCPAddr"](it, nil, nil, []V{"tcp", cn.addr}).(Tuple)
	return Iface{types.NewPointer(it.P.prog.ImportedPackage("net").Pkg.Scope().Lookup("TCPAddr").Type()), t[0]}
}
