// Package shim replaces process, network and hash calls while a counterexample is replayed.
package shim

import (
	"bytes"
	"crypto/sha256"
	"hash"
	"io"
	"net"
	"os/exec"
	"time"

	"zRep/verifsym/hook"
)

type Rec struct {
	Addr string
	Data []byte
}

var Sent []Rec

type TCPConn struct {
	*net.TCPConn
	addr string
	in   *bytes.Reader
}

func (c *TCPConn) Read(b []byte) (int, error)         { return c.in.Read(b) }
func (c *TCPConn) WriteTo(w io.Writer) (int64, error) { return c.in.WriteTo(w) }
func (c *TCPConn) RemoteAddr() net.Addr               { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 5} }
func (c *TCPConn) SetDeadline(time.Time) error        { return nil }
func (c *TCPConn) SetReadDeadline(time.Time) error    { return nil }

func (c *TCPConn) Write(b []byte) (int, error) {
	Sent = append(Sent, Rec{c.addr, append([]byte{}, b...)})
	return len(b), nil
}
func (c *TCPConn) Close() error { return nil }

func newConn(d []byte) *TCPConn {
	return &TCPConn{in: bytes.NewReader(append([]byte{}, d...))}
}

func DialTCP(network string, l, r *net.TCPAddr) (*TCPConn, error) {
	if r == nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: net.InvalidAddrError("missing address")}
	}
	return &TCPConn{addr: r.String()}, nil
}

func Dial(network, addr string) (*TCPConn, error) { return &TCPConn{addr: addr}, nil }

func Fatal(v ...interface{})            { panic(hook.Exit{Why: "log.Fatal"}) }
func Fatalf(f string, v ...interface{}) { panic(hook.Exit{Why: "log.Fatal"}) }
func Fatalln(v ...interface{})          { panic(hook.Exit{Why: "log.Fatal"}) }
func Exit(code int)                     { panic(hook.Exit{Why: "os.Exit"}) }
func Sleep(d time.Duration) {
	if p := cur; p != nil && p.own {
		p.park("sleep")
	}
}

var ncmd int
var primes = [2]string{
	"13087485718017359370504462950888567139203794163085135988960807279829438364557157310338372124836252106683625763814239599490457948624430768402411545281418683",
	"11636615416813609756011181788891120094432779214798115587818272879901300194982172815443773857451190570901776635067456650649472290146494711976171073558232167",
}

// Command stands for openssl prime: it prints one of two fixed safe primes.
func Command(name string, args ...string) *exec.Cmd {
	ncmd++
	return exec.Command("echo", primes[ncmd%2])
}

type digest struct {
	hash.Hash
	buf []byte
}

var lastQuery, rewound, lastAnswer, rewoundAnswer []byte

func Rewind() { rewound, rewoundAnswer = lastQuery, lastAnswer }
func Forked() bool {
	return bytes.Equal(rewound, lastQuery) && !bytes.Equal(rewoundAnswer, lastAnswer)
}

func LastAnswer() []byte { return lastAnswer }

func (d *digest) Write(b []byte) (int, error) {
	d.buf = append(d.buf, b...)
	return d.Hash.Write(b)
}

func (d *digest) Reset() {
	d.buf = nil
	d.Hash.Reset()
}

func NewSHA256() hash.Hash { return &digest{Hash: sha256.New()} }

func (d *digest) Sum(b []byte) []byte {
	if v := hook.Next("sha"); v != nil {
		var o [32]byte
		lastQuery, lastAnswer = append([]byte{}, d.buf...), v.FillBytes(o[:])
		return append(b, o[:]...)
	}
	lastQuery, lastAnswer = append([]byte{}, d.buf...), d.Hash.Sum(nil)
	return append(b, lastAnswer...)
}

func Sum256(data []byte) (o [32]byte) {
	d := NewSHA256()
	d.Write(data)
	copy(o[:], d.Sum(nil))
	return
}
