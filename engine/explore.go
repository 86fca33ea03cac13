package main

// Path exploration: a work list of decision prefixes, executed by several workers.

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type labelStat struct {
	Checked int            `json:"checked"`
	Proved  int            `json:"proved"`
	How     map[string]int `json:"how"`
	Open    int            `json:"open"`
	Failed  int            `json:"failed"`
}

type Explorer struct {
	opt      *Options
	P        *Program
	fn       *ssa.Function
	name     string
	mu       sync.Mutex
	cond     *sync.Cond
	stack    [][]int
	busy     int
	paths    int
	done     int
	infeas   int
	steps    int64
	unsup    map[string]int
	funcs    map[string]int
	labels   map[string]*labelStat
	opens    map[string]int
	notes    map[string]bool
	reach    map[string]int
	covers   map[string]bool
	viols    []*Violation
	crashes  map[string]int
	vars     int
	limited  bool
	start    time.Time
	wall     time.Duration
	deadline time.Time
}

func newExplorer(opt *Options, P *Program, fn *ssa.Function) *Explorer {
	ex := &Explorer{opt: opt, P: P, fn: fn, name: fn.Name(), unsup: map[string]int{}, funcs: map[string]int{},
		labels: map[string]*labelStat{}, opens: map[string]int{}, notes: map[string]bool{}, reach: map[string]int{}, covers: map[string]bool{}, crashes: map[string]int{}}
	ex.cond = sync.NewCond(&ex.mu)
	return ex
}

func (ex *Explorer) push(p []int) {
	ex.mu.Lock()
	ex.stack = append(ex.stack, p)
	ex.cond.Signal()
	ex.mu.Unlock()
}

func (ex *Explorer) noteFn(fn *ssa.Function) {
	if fn.Pkg == nil {
		return
	}
	path := fn.Pkg.Pkg.Path()
	if path == ex.P.symPkg() {
		return
	}
	k := fn.String()
	ex.mu.Lock()
	ex.funcs[k]++
	ex.mu.Unlock()
}

func (ex *Explorer) label(l string) *labelStat {
	s := ex.labels[l]
	if s == nil {
		s = &labelStat{How: map[string]int{}}
		ex.labels[l] = s
	}
	return s
}

func (ex *Explorer) countAssert(l string) {
	ex.mu.Lock()
	ex.label(l).Checked++
	ex.mu.Unlock()
}

func (ex *Explorer) assertDone(l, how string) {
	ex.mu.Lock()
	s := ex.label(l)
	s.Proved++
	s.How[how]++
	ex.mu.Unlock()
}

func (ex *Explorer) assertOpen(l, msg string) {
	ex.mu.Lock()
	ex.label(l).Open++
	ex.opens[l+": "+msg]++
	ex.mu.Unlock()
}

func (ex *Explorer) addViolation(c *Ctx, v *Violation) {
	v.harness = ex.name
	v.model.Harness = ex.name
	ex.mu.Lock()
	ex.label(v.label).Failed++
	n := 0
	for _, o := range ex.viols {
		if o.label == v.label {
			n++
		}
	}
	if n < 4 {
		ex.viols = append(ex.viols, v)
	}
	ex.mu.Unlock()
}

func dumpQuery(dir, key, body string, r Res) {
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, key+"."+r.String()+".smt2"), []byte(body+"(check-sat)\n"), 0o644)
}

func (ex *Explorer) run(workers []*Worker) {
	ex.start = time.Now()
	ex.stack = [][]int{nil}
	var wg sync.WaitGroup
	for _, w := range workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			for {
				ex.mu.Lock()
				for len(ex.stack) == 0 && ex.busy > 0 {
					ex.cond.Wait()
				}
				if len(ex.stack) == 0 {
					ex.cond.Broadcast()
					ex.mu.Unlock()
					return
				}
				if ex.paths >= ex.opt.maxPaths || time.Now().After(ex.opt.deadline) {
					ex.limited = true
					ex.stack = nil
					ex.cond.Broadcast()
					ex.mu.Unlock()
					return
				}
				p := ex.stack[len(ex.stack)-1]
				ex.stack = ex.stack[:len(ex.stack)-1]
				ex.busy++
				ex.paths++
				ex.mu.Unlock()
				ex.path(w, p)
				ex.mu.Lock()
				ex.busy--
				ex.cond.Broadcast()
				ex.mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	ex.checkCovers()
	ex.wall = time.Since(ex.start)
}

// checkCovers: when everything was explored, every demanded place has been reached by some path.
func (ex *Explorer) checkCovers() {
	clean := len(ex.viols) == 0
	for _, l := range sortedKeys(ex.covers) {
		st := ex.label("reach:" + l)
		st.Checked++
		switch {
		case ex.reach[l] > 0:
			st.Proved++
			if st.How == nil {
				st.How = map[string]int{}
			}
			st.How["solver"]++
		case !clean || ex.limited || len(ex.unsup) > 0 || len(ex.opens) > 0 || len(ex.crashes) > 0 || ex.done != ex.paths-ex.infeas:
			st.Open++
		default:
			st.Failed++
			if len(ex.viols) > 0 {
				continue
			}
			ex.viols = append(ex.viols, &Violation{label: "reach:" + l, harness: ex.name, detail: "no values of the inputs and draws lead there",
				model: &ModelOut{Harness: ex.name, Label: "reach:" + l, Inputs: map[string]string{}, Detail: "unreachable on all explored paths"}})
		}
	}
}

func (ex *Explorer) path(w *Worker, prefix []int) {
	c := newCtx(ex, w, prefix)
	it := &Interp{c: c, P: ex.P, globals: map[*ssa.Global]*V{}, inited: map[*ssa.Package]bool{}}
	c.it = it
	end := ""
	func() {
		defer it.killProcs()
		defer func() {
			r := recover()
			if r == nil {
				end = "done"
				return
			}
			switch x := r.(type) {
			case pathEnd:
				end = "infeasible"
			case Unsup:
				end = "unsup"
				ex.mu.Lock()
				ex.unsup[string(x)+"  ["+it.failAt+"]"]++
				ex.mu.Unlock()
			case targetPanic:
				end = "panic"
				it.escaped("no-panic", it.panicText(x))
			case exitPath:
				end = "exit"
				it.escaped("no-exit", x.why)
			default:
				end = "crash"
				ex.mu.Lock()
				ex.crashes[fmt.Sprint(r)+"  ["+it.failAt+"]"]++
				ex.mu.Unlock()
				if ex.opt.verbose {
					fmt.Fprintf(os.Stderr, "engine crash: %v\n%s\n", r, it.failStack)
				}
			}
		}()
		it.initPkg(ex.fn.Pkg)
		it.callFn(nil, ex.fn, nil, nil)
	}()
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.steps += int64(c.steps)
	ex.vars += len(c.vars)
	switch end {
	case "done":
		ex.done++
	case "infeasible":
		ex.infeas++
	}
	for n := range c.notes {
		ex.notes[n] = true
	}
	if end == "done" || end == "panic" || end == "exit" {
		for r := range c.reached {
			ex.reach[r]++
		}
	}
}

// noteFail records where a path stopped, before the frames are unwound.
func (it *Interp) noteFail(fr *frame, r any) {
	if it.failAt != "" {
		return
	}
	it.failAt = it.whereFrom(fr)
	switch r.(type) {
	case Unsup, pathEnd, exitPath:
	default:
		it.failStack = string(debug.Stack())
	}
}

func (it *Interp) where() string { return it.whereFrom(it.top) }

func (it *Interp) whereFrom(top *frame) string {
	s := ""
	n := 0
	for f := top; f != nil && n < 4; f = f.caller {
		if n > 0 {
			s += " < "
		}
		s += f.fn.RelString(nil)
		n++
	}
	return s
}

func (it *Interp) panicText(p targetPanic) (r string) {
	defer func() {
		if x := recover(); x != nil {
			r = "panic"
		}
	}()
	if i, ok := p.v.(Iface); ok {
		if s, ok := i.v.(string); ok {
			return s
		}
		return fmt.Sprint(i.t)
	}
	return fmt.Sprint(p.v)
}

// escaped: the harness stopped by a panic or exit it did not expect.
func (it *Interp) escaped(label, why string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(pathEnd); ok {
				return
			}
			if u, ok := r.(Unsup); ok {
				it.c.ex.mu.Lock()
				it.c.ex.unsup[string(u)]++
				it.c.ex.mu.Unlock()
				return
			}
			panic(r)
		}
	}()
	if it.c.opt.verbose {
		fmt.Fprintf(os.Stderr, "escaped %s: %s at %s\n", label, why, it.where())
	}
	it.c.assertForm(label, FF)
}

func topN(m map[string]int, n int) []string {
	type kv struct {
		k string
		v int
	}
	var l []kv
	for k, v := range m {
		l = append(l, kv{k, v})
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].v != l[j].v {
			return l[i].v > l[j].v
		}
		return l[i].k < l[j].k
	})
	var r []string
	for i, x := range l {
		if i >= n {
			break
		}
		r = append(r, fmt.Sprintf("%dx %s", x.v, x.k))
	}
	return r
}
