package main

// zsym: solver-based checking of zRep's Go code.

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type harnessFile struct {
	src  string // path below verif
	dir  string // package directory inside the repository
	body []byte
	dst  string
	uses []string
}

var dirRe = regexp.MustCompile(`(?m)^//sym:dir (\S+)`)
var pointsRe = regexp.MustCompile(`(?m)^//sym:points (\S+)`)
var useRe = regexp.MustCompile(`(?m)^//sym:use (\S+)`)

func readHarness(verif, rel string) (*harnessFile, error) {
	b, err := os.ReadFile(filepath.Join(verif, rel))
	if err != nil {
		return nil, err
	}
	m := dirRe.FindSubmatch(b)
	if m == nil {
		return nil, fmt.Errorf("%s: no //sym:dir line", rel)
	}
	h := &harnessFile{src: rel, dir: string(m[1]), body: b}
	for _, u := range useRe.FindAllSubmatch(b, -1) {
		h.uses = append(h.uses, string(u[1]))
	}
	return h, nil
}

// collect reads the harness files of a property with the shared files they use.
func collect(verif, prop string) ([]*harnessFile, error) {
	fs, err := filepath.Glob(filepath.Join(verif, "harness", prop, "*.go"))
	if err != nil {
		return nil, err
	}
	sort.Strings(fs)
	seen := map[string]bool{}
	var out []*harnessFile
	var add func(rel string) error
	add = func(rel string) error {
		if seen[rel] {
			return nil
		}
		seen[rel] = true
		h, err := readHarness(verif, rel)
		if err != nil {
			return err
		}
		out = append(out, h)
		for _, u := range h.uses {
			if err := add(filepath.Join("harness", u)); err != nil {
				return err
			}
		}
		return nil
	}
	for _, f := range fs {
		rel, _ := filepath.Rel(verif, f)
		if err := add(rel); err != nil {
			return nil, err
		}
	}
	return out, nil
}

func flat(rel string) string {
	return "zz_verif_" + strings.TrimSuffix(strings.NewReplacer("/", "_", "-", "_").Replace(strings.TrimPrefix(rel, "harness/")), ".go") + ".go"
}

func overlayOf(repo, verif string, hs []*harnessFile) (map[string][]byte, error) {
	ov := map[string][]byte{}
	for _, h := range hs {
		d := filepath.Join(repo, h.dir)
		if st, err := os.Stat(d); err != nil || !st.IsDir() {
			return nil, fmt.Errorf("package directory %s is gone", h.dir)
		}
		h.dst = filepath.Join(d, flat(h.src))
		ov[h.dst] = h.body
	}
	for d := range pointDirs(hs) {
		fs, err := filepath.Glob(filepath.Join(repo, d, "*.go"))
		if err != nil {
			return nil, err
		}
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			ov[f] = withPoints(b)
		}
	}
	err := filepath.Walk(filepath.Join(verif, "verifsym"), func(p string, st os.FileInfo, err error) error {
		if err != nil || st.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(verif, p)
		b, err := os.ReadFile(p)
		ov[filepath.Join(repo, rel)] = b
		return err
	})
	return ov, err
}

// pointDirs are the packages whose statements are points where another goroutine may run.
func pointDirs(hs []*harnessFile) map[string]bool {
	m := map[string]bool{}
	for _, h := range hs {
		for _, d := range pointsRe.FindAllSubmatch(h.body, -1) {
			m[string(d[1])] = true
		}
	}
	return m
}

// withPoints puts a call of verifsym.Yield before every statement of every function.
func withPoints(src []byte) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return src
	}
	at := map[int]bool{}
	list := func(l []ast.Stmt) {
		for _, st := range l {
			switch st.(type) {
			case *ast.EmptyStmt, *ast.DeclStmt, *ast.BlockStmt:
				continue
			}
			at[fset.Position(st.Pos()).Offset] = true
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	// clauses stand in block lists too
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CaseClause:
			delete(at, fset.Position(x.Pos()).Offset)
		case *ast.CommClause:
			delete(at, fset.Position(x.Pos()).Offset)
		}
		return true
	})
	if len(at) == 0 {
		return src
	}
	var pos []int
	for p := range at {
		pos = append(pos, p)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(pos)))
	out := string(src)
	for _, p := range pos {
		out = out[:p] + "zzpoint.Yield(); " + out[p:]
	}
	p := fset.Position(f.Name.End()).Offset
	return []byte(out[:p] + "; import zzpoint \"zRep/verifsym\"" + out[p:])
}

func moduleName(repo string) string {
	b, _ := os.ReadFile(filepath.Join(repo, "go.mod"))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "module ") {
			return strings.TrimSpace(l[7:])
		}
	}
	return ""
}

type harnessReport struct {
	Name     string                `json:"name"`
	Paths    int                   `json:"paths"`
	Complete int                   `json:"completed"`
	Infeas   int                   `json:"infeasible"`
	Steps    int64                 `json:"instructions"`
	Vars     int                   `json:"symbolic_variables"`
	Asserts  map[string]*labelStat `json:"assertions"`
	Reached  map[string]int        `json:"reached"`
	Unsup    []string              `json:"not_encoded,omitempty"`
	Open     []string              `json:"undecided,omitempty"`
	Crash    []string              `json:"engine_errors,omitempty"`
	Notes    []string              `json:"notes,omitempty"`
	Limited  bool                  `json:"limit_reached,omitempty"`
	Wall     float64               `json:"wall_s"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: zsym check|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		checkMain(os.Args[2:])
	case "replay":
		replayMain(os.Args[2:])
	case "externals":
		P, err := load(os.Args[2], nil, mustTemp())
		if err != nil {
			fmt.Println(err)
			return
		}
		for _, x := range P.externals("zRep", dedis) {
			if !strings.HasPrefix(x, "invoke") && intrinsics[x] == nil {
				fmt.Println(x)
			}
		}
	}
}

func mustTemp() string {
	d, err := os.MkdirTemp("", "zsym")
	if err != nil {
		panic(err)
	}
	return d
}

func checkMain(args []string) {
	fl := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fl.String("prop", "", "property id")
	tier := fl.String("tier", "quick", "quick or thorough")
	repo := fl.String("repo", "/repo", "repository")
	verif := fl.String("verif", "/verif", "verification directory")
	only := fl.String("only", "", "run only this harness function")
	verbose := fl.Bool("v", false, "verbose")
	dump := fl.String("dump", "", "directory for the SMT queries")
	noReplay := fl.Bool("noreplay", false, "do not replay counterexamples")
	nwork := fl.Int("j", runtime.NumCPU(), "workers")
	budget := fl.Int("budget", 0, "seconds")
	maxPaths := fl.Int("paths", 0, "path limit per harness")
	fl.Parse(args)
	debug.SetGCPercent(300)
	start := time.Now()
	opt := &Options{dumpDir: *dump, seed: 1, thorough: *tier == "thorough", qTimeout: 4000, aTimeout: 20000,
		maxPaths: 4000, workers: *nwork, verbose: *verbose, maxSteps: 60_000_000}
	secs := 240
	if opt.thorough {
		secs, opt.qTimeout, opt.aTimeout, opt.maxPaths = 700, 15000, 60000, 60000
	}
	if *budget > 0 {
		secs = *budget
	}
	if *maxPaths > 0 {
		opt.maxPaths = *maxPaths
	}
	opt.deadline = start.Add(time.Duration(secs) * time.Second)

	rep := &report{prop: *prop, tier: *tier, verif: *verif, start: start, repo: *repo}
	known := readKnown(*verif)
	hs, err := collect(*verif, *prop)
	if err != nil || len(hs) == 0 {
		rep.problem("harness files: %v", err)
		rep.write()
		return
	}
	modDir := mustTemp()
	defer os.RemoveAll(modDir)
	var P *Program
	for {
		ov, err := overlayOf(*repo, *verif, hs)
		if err == nil {
			P, err = load(*repo, ov, modDir)
		}
		if err == nil {
			break
		}
		// drop the harness files that no longer fit the code
		var keep []*harnessFile
		msg := err.Error()
		for _, h := range hs {
			if h.dst != "" && strings.Contains(msg, filepath.Base(h.dst)) {
				rep.problem("harness %s no longer fits the code: %s", h.src, clipN(msg, 300))
				continue
			}
			if h.dst == "" {
				rep.problem("harness %s: %s", h.src, clipN(msg, 200))
				continue
			}
			keep = append(keep, h)
		}
		if len(keep) == len(hs) || len(keep) == 0 {
			rep.problem("the code could not be encoded: %s", clipN(msg, 500))
			rep.write()
			return
		}
		hs = keep
	}
	P.mod = moduleName(*repo)
	var fns []*ssa.Function
	owner := map[*ssa.Function]*harnessFile{}
	for _, h := range hs {
		pp := P.mod
		if h.dir != "." {
			pp += "/" + h.dir
		}
		pk := P.pkgs[pp]
		if pk == nil {
			rep.problem("package %s not found", pp)
			continue
		}
		for _, m := range sortedKeys(pk.Members) {
			f, ok := pk.Members[m].(*ssa.Function)
			if !ok || !(strings.HasPrefix(m, "Sym_"+*prop+"_") || opt.thorough && strings.HasPrefix(m, "SymT_"+*prop+"_")) {
				continue
			}
			if *only != "" && m != *only {
				continue
			}
			if owner[f] == nil && filepath.Base(P.prog.Fset.Position(f.Pos()).Filename) == filepath.Base(h.dst) {
				owner[f] = h
				fns = append(fns, f)
			}
		}
	}
	if len(fns) == 0 {
		rep.problem("no harness function found")
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
	var workers []*Worker
	for i := 0; i < *nwork; i++ {
		workers = append(workers, &Worker{id: i})
	}
	defer func() {
		for _, w := range workers {
			w.solver.kill()
		}
	}()
	total := opt.deadline
	for i, f := range fns {
		// share the remaining time
		left := time.Until(total)
		o := *opt
		share := left / time.Duration(len(fns)-i) * 2
		if share > left || i == len(fns)-1 {
			share = left
		}
		o.deadline = time.Now().Add(share)
		ex := newExplorer(&o, P, f)
		ex.run(workers)
		rep.add(ex, owner[f])
		if *verbose {
			b, _ := json.MarshalIndent(rep.harnesses[len(rep.harnesses)-1], "", " ")
			fmt.Println(string(b))
		}
	}
	for _, w := range workers {
		w.solver.kill()
		w.solver = nil
	}
	// every counterexample is replayed on the real code
	code := 0
	if len(rep.cands) > 0 {
		code = rep.confirmAll(hs, known, *noReplay)
	}
	rep.knownLines(known)
	rep.write()
	os.RemoveAll(modDir)
	os.Exit(code)
}

type report struct {
	prop, tier, verif, repo string
	start                   time.Time
	problems                []string
	harnesses               []*harnessReport
	funcs                   map[string]int
	cands                   []*cand
	confirmed               []string
	knownHit                map[string]bool
	inconcl                 []string
	replayed                int
	lines                   int
	types                   map[string]types.Type
}

type cand struct {
	v *Violation
	h *harnessFile
}

func (r *report) problem(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	r.problems = append(r.problems, s)
	fmt.Println("NOTE:", s)
}

func (r *report) add(ex *Explorer, h *harnessFile) {
	hr := &harnessReport{Name: ex.name, Paths: ex.paths, Complete: ex.done, Infeas: ex.infeas, Steps: ex.steps, Vars: ex.vars,
		Asserts: ex.labels, Reached: ex.reach, Unsup: topN(ex.unsup, 12), Open: topN(ex.opens, 12), Crash: topN(ex.crashes, 6),
		Limited: ex.limited, Wall: ex.wall.Seconds(), Notes: sortedKeys(ex.notes)}
	r.harnesses = append(r.harnesses, hr)
	if r.funcs == nil {
		r.funcs = map[string]int{}
	}
	for k, n := range ex.funcs {
		r.funcs[k] += n
	}
	for _, v := range ex.viols {
		r.cands = append(r.cands, &cand{v, h})
	}
	na, np := 0, 0
	for _, l := range ex.labels {
		na += l.Checked
		np += l.Proved
	}
	fmt.Printf("%s: %d paths (%d complete), %d/%d assertions proved, %d not encoded, %d undecided, %d candidate violations, %.1fs\n",
		ex.name, ex.paths, ex.done, np, na, len(ex.unsup), len(ex.opens), len(ex.viols), ex.wall.Seconds())
	for _, l := range topN(ex.crashes, 3) {
		fmt.Println("  engine error:", l)
	}
	for _, l := range topN(ex.unsup, 3) {
		fmt.Println("  not encoded:", l)
	}
	for _, l := range topN(ex.opens, 3) {
		fmt.Println("  undecided:", l)
	}
}
