package shim

import (
	"errors"
	"io"
	"net"
	"os"
	"path/filepath"
)

// Files makes Open find the files of the repository.
var Files bool

func Open(name string) (*os.File, error) {
	if Files && !filepath.IsAbs(name) {
		return os.Open(filepath.Join(os.Getenv("VERIF_REPO"), name))
	}
	return nil, os.ErrNotExist
}

// Goroutines run one at a time: each gives way when it waits for a connection, a line of input or time to pass.

type Proc struct {
	own    bool
	state  string
	resume chan []byte
	yield  chan interface{}
}

var Procs []*Proc
var cur *Proc

type finished struct{}

func spawn(own bool, f func()) *Proc {
	p := &Proc{own: own, resume: make(chan []byte), yield: make(chan interface{})}
	Procs = append(Procs, p)
	go func() {
		var out interface{} = finished{}
		defer func() {
			if r := recover(); r != nil {
				out = r
			}
			p.state = "done"
			p.yield <- out
		}()
		<-p.resume
		f()
	}()
	p.transfer(nil)
	return p
}

func (p *Proc) transfer(data []byte) {
	c := cur
	cur = p
	p.resume <- data
	r := <-p.yield
	cur = c
	switch r.(type) {
	case nil, finished:
	default:
		panic(r)
	}
}

func (p *Proc) park(state string) []byte {
	p.state = state
	p.yield <- nil
	d := <-p.resume
	p.state = "running"
	return d
}

// Go stands for the go statement.
func Go(f func()) { spawn(false, f) }

func Spawn(f func()) int {
	p := spawn(true, f)
	for i := range Procs {
		if Procs[i] == p {
			return i
		}
	}
	return -1
}

func Where(i int) string { return Procs[i].state }

func Resume(i int, line string) {
	switch Procs[i].state {
	case "sleep":
		Procs[i].transfer(nil)
	case "stdin":
		Procs[i].transfer([]byte(line + "\n"))
	default:
		panic("process does not wait: " + Procs[i].state)
	}
}

type stdin struct{}

func (stdin) Read(b []byte) (int, error) {
	if cur == nil || !cur.own {
		return 0, io.EOF
	}
	return copy(b, cur.park("stdin")), nil
}

var Stdin io.Reader = stdin{}

type TCPListener struct {
	*net.TCPListener
	addr   net.TCPAddr
	waiter *Proc
	closed bool
}

var Listeners []*TCPListener

func ListenTCP(network string, l *net.TCPAddr) (*TCPListener, error) {
	if l == nil {
		l = &net.TCPAddr{}
	}
	for _, o := range Listeners {
		if l.Port != 0 && o.addr.Port == l.Port && !o.closed {
			return nil, errors.New("bind: address already in use")
		}
	}
	r := &TCPListener{addr: *l}
	if l.Port == 0 {
		r.addr.Port = 40001 + len(Listeners)
	}
	Listeners = append(Listeners, r)
	return r, nil
}

func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	l.waiter = cur
	d := cur.park("accept")
	l.waiter = nil
	return newConn(d), nil
}

func (l *TCPListener) Accept() (net.Conn, error) { return l.AcceptTCP() }
func (l *TCPListener) Close() error              { l.closed = true; return nil }
func (l *TCPListener) Addr() net.Addr            { a := l.addr; return &a }
func (l *TCPListener) Accepting() bool           { return l.waiter != nil && !l.closed }

func (l *TCPListener) Feed(data []byte) {
	if l.Accepting() {
		l.waiter.transfer(data)
	}
}
