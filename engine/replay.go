package main

// Native replay of counterexamples on a scratch copy of the repository.

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"
)

type scratch struct {
	dir, repo string
	bins      map[string]string // package dir -> test binary
}

func goEnv() []string {
	return append(os.Environ(), "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOFLAGS=-mod=vendor", "CGO_ENABLED=0")
}

func copyTree(src, dst string) error {
	return filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if d.IsDir() {
			if d.Name() == ".git" || d.Name() == "verifsym" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		n := d.Name()
		if strings.HasSuffix(n, "_test.go") || !d.Type().IsRegular() {
			return nil
		}
		if !(strings.HasSuffix(n, ".go") || n == "go.mod" || n == "go.sum" || strings.HasSuffix(n, ".json")) {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	})
}

var shimSel = map[string]map[string]string{
	"net":           {"DialTCP": "DialTCP", "Dial": "Dial", "ListenTCP": "ListenTCP", "TCPListener": "TCPListener", "TCPConn": "TCPConn"},
	"log":           {"Fatal": "Fatal", "Fatalf": "Fatalf", "Fatalln": "Fatalln"},
	"os":            {"Exit": "Exit", "Stdin": "Stdin", "Open": "Open"},
	"os/exec":       {"Command": "Command"},
	"time":          {"Sleep": "Sleep"},
	"crypto/sha256": {"New": "NewSHA256", "Sum256": "Sum256"},
}

var keepUse = map[string]string{
	"net": "net.IPv4len", "log": "log.LstdFlags", "os": "os.O_RDONLY", "os/exec": "exec.ErrNotFound",
	"time": "time.Second", "crypto/sha256": "sha256.Size",
}

// rewrite replaces calls that leave the process by recording stand-ins.
func rewrite(src []byte) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return src, false
	}
	names := map[string]string{}
	for _, im := range f.Imports {
		p := strings.Trim(im.Path.Value, `"`)
		if shimSel[p] == nil {
			continue
		}
		n := filepath.Base(p)
		if im.Name != nil {
			n = im.Name.Name
		}
		names[n] = p
	}
	type edit struct {
		a, b int
		s    string
	}
	var eds []edit
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if g, ok := n.(*ast.GoStmt); ok {
			a, b := fset.Position(g.Pos()).Offset, fset.Position(g.Call.Pos()).Offset
			e := fset.Position(g.End()).Offset
			eds = append(eds, edit{a, b, "zzshim.Go(func() { "}, edit{e, e, " })"})
			return true
		}
		s, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := s.X.(*ast.Ident)
		if !ok || id.Obj != nil {
			return true
		}
		p, ok := names[id.Name]
		if !ok {
			return true
		}
		to, ok := shimSel[p][s.Sel.Name]
		if !ok {
			return true
		}
		used[id.Name] = true
		eds = append(eds, edit{fset.Position(s.Pos()).Offset, fset.Position(s.End()).Offset, "zzshim." + to})
		return true
	})
	if len(eds) == 0 {
		return src, false
	}
	eds = append(eds, edit{fset.Position(f.Name.End()).Offset, fset.Position(f.Name.End()).Offset, "; import zzshim \"zRep/verifsym/shim\""})
	sort.Slice(eds, func(i, j int) bool { return eds[i].a > eds[j].a })
	out := string(src)
	for _, e := range eds {
		out = out[:e.a] + e.s + out[e.b:]
	}
	for _, n := range sortedKeys(used) {
		u := keepUse[names[n]]
		u = n + u[strings.Index(u, "."):]
		out += "\nvar _ = " + u + "\n"
	}
	return []byte(out), true
}

type patch struct{ file, old, new string }

var vendorPatches = []patch{
	{"random/rand.go", `	"crypto/rand"`, `	"crypto/rand"
	"strconv"
	"zRep/verifsym/hook"`},
	{"random/rand.go", `	b := make([]byte, (bitlen+7)/8)
	rand.XORKeyStream(b, b)
	highbits`, `	b := make([]byte, (bitlen+7)/8)
	if v := hook.Next("bits" + strconv.Itoa(int(bitlen))); v != nil {
		return v.FillBytes(b)
	}
	rand.XORKeyStream(b, b)
	highbits`},
	{"random/rand.go", `func Bool(rand cipher.Stream) bool {`, `func Bool(rand cipher.Stream) bool {
	if v := hook.Next("bool"); v != nil {
		return v.Sign() != 0
	}`},
	{"random/rand.go", `func Byte(rand cipher.Stream) byte {`, `func Byte(rand cipher.Stream) byte {
	if v := hook.Next("u8"); v != nil {
		return byte(v.Uint64())
	}`},
	{"random/rand.go", `func Uint8(rand cipher.Stream) uint8 {`, `func Uint8(rand cipher.Stream) uint8 {
	if v := hook.Next("u8"); v != nil {
		return uint8(v.Uint64())
	}`},
	{"random/rand.go", `func Uint16(rand cipher.Stream) uint16 {`, `func Uint16(rand cipher.Stream) uint16 {
	if v := hook.Next("u16"); v != nil {
		return uint16(v.Uint64())
	}`},
	{"random/rand.go", `func Uint32(rand cipher.Stream) uint32 {`, `func Uint32(rand cipher.Stream) uint32 {
	if v := hook.Next("u32"); v != nil {
		return uint32(v.Uint64())
	}`},
	{"random/rand.go", `func Uint64(rand cipher.Stream) uint64 {`, `func Uint64(rand cipher.Stream) uint64 {
	if v := hook.Next("u64"); v != nil {
		return uint64(v.Uint64())
	}`},
	{"random/rand.go", `	bitlen := uint(mod.BitLen())
	i := new(big.Int)`, `	bitlen := uint(mod.BitLen())
	if v := hook.Next("int"); v != nil {
		return v
	}
	i := new(big.Int)`},
	{"random/rand.go", `func Bytes(n int, rand cipher.Stream) []byte {
	b := make([]byte, n)`, `func Raw(n int) []byte {
	b := make([]byte, n)
	rand.Read(b)
	return b
}

func Bytes(n int, rand cipher.Stream) []byte {
	b := make([]byte, n)
	if v := hook.Next("bits" + strconv.Itoa(8*n)); v != nil {
		return v.FillBytes(b)
	}`},
	{"cipher/sponge.go", `random.Bytes(sponge.Capacity(), random.Stream)`, `random.Raw(sponge.Capacity())`},
	{"cipher/sponge.go", `	"github.com/dedis/crypto/random"`, `	"github.com/dedis/crypto/random"
	"strconv"
	"zRep/verifsym/hook"`},
	{"cipher/sponge.go", `func (sc *spongeCipher) Partial(dst, src, key []byte) {`, `func (sc *spongeCipher) Partial(dst, src, key []byte) {
	if all := dst; len(all) > 0 {
		zero := true
		for _, b := range src {
			zero = zero && b == 0
		}
		defer func() {
			if zero {
				if v := hook.Next("bits" + strconv.Itoa(8*len(all))); v != nil {
					v.FillBytes(all)
				}
			}
		}()
	}`},
	{"nist/residue.go", `	"github.com/dedis/crypto/random"`, `	"github.com/dedis/crypto/random"
	"zRep/verifsym/hook"`},
	{"nist/residue.go", `	l := p.g.PointLen()
	dl := p.PickLen()
	if dl > len(data) {`, `	if v := hook.Next("point"); v != nil && data == nil {
		p.Int.Exp(big.NewInt(4), v, p.g.P)
		return p, nil
	}
	l := p.g.PointLen()
	dl := p.PickLen()
	if dl > len(data) {`},
	{"nist/qrsuite.go", `	"crypto/sha256"`, `	zzshim "zRep/verifsym/shim"`},
	{"nist/qrsuite.go", `sha256.New()`, `zzshim.NewSHA256()`},
	{"nist/suite.go", `	"crypto/sha256"`, `	zzshim "zRep/verifsym/shim"`},
	{"nist/suite.go", `sha256.New()`, `zzshim.NewSHA256()`},
}

// prepare builds the scratch copy with the harness files and one test binary per package used.
func prepare(repo, verif string, hs []*harnessFile) (*scratch, error) {
	dir, err := os.MkdirTemp("", "zsymreplay")
	if err != nil {
		return nil, err
	}
	s := &scratch{dir: dir, repo: repo, bins: map[string]string{}}
	root := filepath.Join(dir, "repo")
	if err := copyTree(repo, root); err != nil {
		return s, err
	}
	run := func(wd string, env []string, args ...string) (string, error) {
		c := exec.Command(args[0], args[1:]...)
		c.Dir, c.Env = wd, env
		b, err := c.CombinedOutput()
		return string(b), err
	}
	if o, err := run(root, append(goEnv(), "GOFLAGS=-mod=mod"), "go", "mod", "vendor"); err != nil {
		return s, fmt.Errorf("vendor: %v %s", err, clipN(o, 400))
	}
	ven := filepath.Join(root, "vendor/github.com/dedis/crypto")
	for _, p := range vendorPatches {
		f := filepath.Join(ven, p.file)
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		if !strings.Contains(string(b), p.old) {
			return s, fmt.Errorf("library patch does not apply: %s", p.file)
		}
		if err := os.WriteFile(f, []byte(strings.Replace(string(b), p.old, p.new, 1)), 0o644); err != nil {
			return s, err
		}
	}
	for d := range pointDirs(hs) {
		fs, _ := filepath.Glob(filepath.Join(root, d, "*.go"))
		for _, f := range fs {
			if b, err := os.ReadFile(f); err == nil {
				os.WriteFile(f, withPoints(b), 0o644)
			}
		}
	}
	// the repository's own calls that leave the process
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() && d.Name() == "vendor" {
			return filepath.SkipDir
		}
		if strings.HasSuffix(p, ".go") {
			b, _ := os.ReadFile(p)
			if o, ch := rewrite(b); ch {
				os.WriteFile(p, o, 0o644)
			}
		}
		return nil
	})
	// the harness interface, after the rewriting
	filepath.WalkDir(filepath.Join(verif, "verifsym"), func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(verif, p)
		if d.IsDir() {
			return os.MkdirAll(filepath.Join(root, rel), 0o755)
		}
		b, _ := os.ReadFile(p)
		return os.WriteFile(filepath.Join(root, rel), b, 0o644)
	})
	byDir := map[string][]*harnessFile{}
	for _, h := range hs {
		byDir[h.dir] = append(byDir[h.dir], h)
		body, _ := rewrite(h.body)
		if err := os.WriteFile(filepath.Join(root, h.dir, flat(h.src)), body, 0o644); err != nil {
			return s, err
		}
	}
	fnRe := regexp.MustCompile(`(?m)^func (SymT?_\w+)\(\)`)
	pkRe := regexp.MustCompile(`(?m)^package (\w+)`)
	for d, l := range byDir {
		var fns []string
		pk := ""
		for _, h := range l {
			for _, m := range fnRe.FindAllSubmatch(h.body, -1) {
				fns = append(fns, string(m[1]))
			}
			pk = string(pkRe.FindSubmatch(h.body)[1])
		}
		if len(fns) == 0 {
			continue
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"fmt\"\n\t\"os\"\n\t\"testing\"\n\n\t\"zRep/verifsym/hook\"\n)\n\n", pk)
		sb.WriteString("func TestVerifReplay(t *testing.T) {\n\thook.Load(os.Getenv(\"VERIF_MODEL\"))\n\tfns := map[string]func(){\n")
		for _, f := range fns {
			fmt.Fprintf(&sb, "\t\t%q: %s,\n", f, f)
		}
		sb.WriteString(`	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(hook.Exit); ok {
				hook.Fail("no-exit")
				return
			}
			fmt.Println("\nVERIF-PANIC", r)
			hook.Fail("no-panic")
		}
	}()
	fns[os.Getenv("VERIF_HARNESS")]()
	fmt.Println("\nVERIF-DONE")
}
`)
		if err := os.WriteFile(filepath.Join(root, d, "zz_verif_replay_test.go"), []byte(sb.String()), 0o644); err != nil {
			return s, err
		}
		bin := filepath.Join(dir, "bin_"+strings.ReplaceAll(d, "/", "_"))
		if o, err := run(root, goEnv(), "go", "test", "-c", "-vet=off", "-o", bin, "./"+d); err != nil {
			return s, fmt.Errorf("build of the replay in %s: %s", d, clipN(o, 900))
		}
		s.bins[d] = bin
	}
	return s, nil
}

func (s *scratch) remove() {
	if s != nil && s.dir != "" {
		os.RemoveAll(s.dir)
	}
}

// try runs one counterexample; it reports whether the assertion failed on the real code.
func (s *scratch) try(h *harnessFile, harness, label, model string) (bool, string) {
	bin := s.bins[h.dir]
	if bin == "" {
		return false, "no replay binary"
	}
	last := ""
	// a place that nothing leads to: random runs must not get there either
	place, unreached := strings.CutPrefix(label, "reach:")
	times := 8
	if unreached {
		times = 100
	}
	for n := 0; n < times; n++ { // repeated because of the iteration order of Go maps
		c := exec.Command(bin, "-test.run", "^TestVerifReplay$", "-test.v", "-test.timeout", "60s")
		c.Dir = filepath.Join(s.dir, "repo", h.dir)
		c.Env = append(os.Environ(), "VERIF_MODEL="+model, "VERIF_HARNESS="+harness, "VERIF_REPO="+s.repo)
		c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		var out strings.Builder
		c.Stdout, c.Stderr = &out, &out
		if err := c.Start(); err != nil {
			return false, err.Error()
		}
		done := make(chan error, 1)
		go func() { done <- c.Wait() }()
		select {
		case <-done:
		case <-time.After(70 * time.Second):
			syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
			<-done
			return false, "replay took too long"
		}
		last = out.String()
		if unreached {
			if strings.Contains(last, "\nVERIF-REACHED "+place+"\n") || !strings.Contains(last, "VERIF-DONE") {
				return false, last
			}
			continue
		}
		for _, l := range strings.Split(last, "\n") {
			if strings.TrimSpace(l) == "VERIF-ASSERT-FAILED "+label {
				return true, last
			}
		}
		if strings.Contains(last, "VERIF-ASSUMPTION-FAILED") && !strings.Contains(last, "VERIF-DIVERGED") {
			break
		}
	}
	return unreached, last
}

func (r *report) confirmAll(hs []*harnessFile, known []knownEntry, noReplay bool) int {
	var s *scratch
	var perr error
	if !noReplay {
		s, perr = prepare(r.repo, r.verif, hs)
		defer s.remove()
		if perr != nil {
			r.problem("replay could not be built: %v", perr)
		}
	}
	out := filepath.Join(r.verif, "replays")
	os.MkdirAll(out, 0o755)
	code := 0
	done := map[string]bool{}
	for _, cd := range r.cands {
		v := cd.v
		id := r.prop + "-" + v.harness + "-" + strings.NewReplacer(" ", "_", "/", "_").Replace(v.label)
		if done[id] {
			continue
		}
		path := filepath.Join(out, id+".json")
		type file struct {
			*ModelOut
			Property string `json:"property"`
			Tier     string `json:"tier"`
			Trace    []int  `json:"trace"`
		}
		b, _ := json.MarshalIndent(file{v.model, r.prop, r.tier, v.trace}, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		isKnown := false
		for _, e := range known {
			if e.prop == r.prop && e.harness == v.harness && e.label == v.label {
				isKnown = true
			}
		}
		if isKnown {
			done[id] = true
			os.Remove(path)
			continue
		}
		if noReplay {
			fmt.Printf("candidate (not replayed) %s %s: %s\n  %s\n", v.harness, v.label, v.detail, path)
			continue
		}
		if perr != nil {
			r.inconcl = append(r.inconcl, id+": replay not built")
			continue
		}
		ok, log := s.try(cd.h, v.harness, v.label, path)
		r.replayed++
		if !ok {
			r.inconcl = append(r.inconcl, id+": not reproduced on the real code: "+clipN(tail(log, 300), 300))
			fmt.Printf("INCONCLUSIVE %s %s: counterexample not reproduced on the real code\n", v.harness, v.label)
			continue
		}
		done[id] = true
		r.confirmed = append(r.confirmed, id)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, path)
		fmt.Printf("  %s: assertion %q fails: %s\n", v.harness, v.label, clipN(v.detail, 300))
		code = 1
	}
	return code
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func replayMain(args []string) {
	fl := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fl.String("repo", "/repo", "repository")
	verif := fl.String("verif", "/verif", "verification directory")
	fl.Parse(args)
	if fl.NArg() != 1 {
		fmt.Fprintln(os.Stderr, "usage: zsym replay MODEL.json")
		os.Exit(2)
	}
	b, err := os.ReadFile(fl.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var m struct{ Harness, Label, Property string }
	json.Unmarshal(b, &m)
	hs, err := collect(*verif, m.Property)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	s, err := prepare(*repo, *verif, hs)
	defer s.remove()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		s.remove()
		os.Exit(2)
	}
	abs, _ := filepath.Abs(fl.Arg(0))
	for _, h := range hs {
		if strings.Contains(string(h.body), "func "+m.Harness+"()") {
			ok, log := s.try(h, m.Harness, m.Label, abs)
			fmt.Print(log)
			s.remove()
			if ok {
				fmt.Println("reproduced")
				os.Exit(1)
			}
			fmt.Println("not reproduced")
			os.Exit(0)
		}
	}
}
