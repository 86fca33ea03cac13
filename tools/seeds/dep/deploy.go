package main

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// proc is one running program of the deployment.
type proc struct {
	name string
	in   io.WriteCloser
	mu   sync.Mutex
	out  []string
	dead bool
}

var all []*exec.Cmd

func start(name, role string, local, coord int) *proc {
	dir, err := os.MkdirTemp("", "zrepdemo")
	check(err)
	check(os.Mkdir(filepath.Join(dir, "config"), 0700))
	check(os.WriteFile(filepath.Join(dir, "config", "local.properties"), []byte(fmt.Sprintf("local_port=%d\n", local)), 0600))
	check(os.WriteFile(filepath.Join(dir, "config", "conn.properties"), []byte(fmt.Sprintf("coordinator_ip=127.0.0.1\ncoordinator_port=%d\n", coord)), 0600))
	c := exec.Command(os.Args[1], role)
	c.Dir = dir
	p := &proc{name: name}
	p.in, err = c.StdinPipe()
	check(err)
	r, w, err := os.Pipe()
	check(err)
	c.Stdout, c.Stderr = w, w
	check(c.Start())
	w.Close()
	all = append(all, c)
	go func() {
		s := bufio.NewReader(r)
		for {
			l, err := s.ReadString('\n')
			p.mu.Lock()
			p.out = append(p.out, l)
			p.dead = err != nil
			p.mu.Unlock()
			if err != nil {
				c.Wait()
				os.RemoveAll(dir)
				return
			}
		}
	}()
	return p
}

func check(err error) {
	if err != nil {
		fail("%v", err)
	}
}

func fail(f string, a ...interface{}) {
	fmt.Printf("FAIL "+f+"\n", a...)
	finish(1)
}

func finish(rc int) {
	for _, c := range all {
		c.Process.Kill()
	}
	time.Sleep(300 * time.Millisecond)
	os.Exit(rc)
}

// count says how many lines contain s; last gives the last of them.
func (p *proc) count(s string) (n int, last string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, l := range p.out {
		if strings.Contains(l, s) {
			n++
			last = strings.TrimSpace(l)
		}
	}
	return
}

// after gives the line that follows the last one that contains s.
func (p *proc) after(s string) (r string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for i, l := range p.out {
		if strings.Contains(l, s) && i+1 < len(p.out) {
			r = strings.TrimSpace(p.out[i+1])
		}
	}
	return
}

// wait waits until n lines contain s.
func (p *proc) wait(s string, n int) {
	for i := 0; i < 600; i++ {
		if k, _ := p.count(s); k >= n {
			return
		}
		p.mu.Lock()
		dead := p.dead
		p.mu.Unlock()
		if dead {
			p.dump()
			fail("%s stopped before %q", p.name, s)
		}
		time.Sleep(100 * time.Millisecond)
	}
	p.dump()
	fail("%s never said %q %d times", p.name, s, n)
}

func (p *proc) dump() {
	p.mu.Lock()
	defer p.mu.Unlock()
	for i, l := range p.out {
		if i > len(p.out)-15 {
			fmt.Printf("  %s: %.160s\n", p.name, strings.TrimSpace(l))
		}
	}
}

func (p *proc) line(f string, a ...interface{}) { fmt.Fprintf(p.in, f+"\n", a...) }

type dep struct {
	co    *proc
	sv    []*proc
	cl    []*proc
	base  int
	round int
}

func freeBase() int {
	for b := 21000 + os.Getpid()%2000*15; ; b += 15 {
		ok := true
		for i := 0; i < 13 && ok; i++ {
			l, err := net.Listen("tcp", fmt.Sprintf("0.0.0.0:%d", b+i))
			ok = err == nil
			if ok {
				l.Close()
			}
		}
		if ok {
			return b
		}
	}
}

// deploy starts a coordinator and servers and opens the first round.
func deploy(servers int) *dep {
	d := &dep{base: freeBase()}
	d.co = start("coordinator", "coordinator", d.base, d.base)
	d.co.wait("Note: Type ok", 1)
	for i := 0; i < servers; i++ {
		s := start(fmt.Sprint("server", i), "server", d.base+1, d.base)
		d.sv = append(d.sv, s)
		s.wait("Register success", 1)
	}
	d.co.line("")
	d.opened()
	return d
}

func (d *dep) opened() {
	d.round++
	d.co.wait("Posting phase started", d.round)
	for _, c := range d.cl {
		c.wait("One-Time pseudonym for this round", d.round-1)
	}
	time.Sleep(300 * time.Millisecond)
}

// join adds a client in the first round.
func (d *dep) join() *proc {
	c := start(fmt.Sprint("client", len(d.cl)), "client", d.base+1, d.base)
	d.cl = append(d.cl, c)
	c.wait("passed honesty test", 1)
	return c
}

func (d *dep) voting() {
	d.co.line("")
	d.co.wait("Voting phase started", d.round)
	time.Sleep(300 * time.Millisecond)
}

func (d *dep) close() {
	d.co.line("")
	d.opened()
}

// rep is the reputation a client says that it has.
func (p *proc) rep() int {
	_, l := p.count("My reputation is")
	var n int
	fmt.Sscanf(l[strings.LastIndex(l, " ")+1:], "%d", &n)
	return n
}

// get requests n bridges and waits for them; got so far.
func (p *proc) get(n, total int) {
	p.line("get %d", n)
	p.wait("Got bridge", total)
}

func want(what string, got, exp int) {
	if got != exp {
		fail("%s: %d, not %d", what, got, exp)
	}
	fmt.Println(what, got)
}

// vote has a client vote and waits until the coordinator has seen it.
func (d *dep) vote(c *proc, i, f int) {
	n, _ := d.co.count("signatures check passed")
	c.line("vote %d %d", i, f)
	d.co.wait("signatures check passed", n+1)
	time.Sleep(300 * time.Millisecond)
}

// post has a client post a bridge.
func (d *dep) post(c *proc, addr string) {
	c.line("post %s", addr)
	time.Sleep(500 * time.Millisecond)
}
