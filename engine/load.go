package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const dedis = "github.com/dedis/crypto/"

// packages executed from source besides the repository's own
var srcPkgs = []string{
	dedis + "nist", dedis + "random", dedis + "group", dedis + "abstract", dedis + "proof", dedis + "util",
	"bytes", "errors", "io", "sort", "strings", "strconv", "internal/strconv", "internal/stringslite", "internal/byteorder", "encoding/binary", "bufio", "io/ioutil", "slices", "maps", "cmp",
	"math/bits", "unicode/utf8", "container/list", "encoding/hex", "encoding/base64", "unicode", "hash/fnv", "container/heap", "container/ring",
}

type Program struct {
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package
	mod   string // module path of the repository
	repo  string
	lines int
}

// load builds SSA for the repository with the harness files overlaid.
func load(repo string, overlay map[string][]byte, modDir string) (*Program, error) {
	modfile := filepath.Join(modDir, "go.mod")
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(modDir, f), b, 0o644); err != nil {
			return nil, err
		}
	}
	cfg := &packages.Config{
		Mode:    packages.LoadSyntax,
		Dir:     repo,
		Overlay: overlay,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod -modfile="+modfile, "GOPROXY=off", "GOWORK=off",
			"GOTOOLCHAIN=local", "GOSUMDB=off", "CGO_ENABLED=0"),
	}
	pats := append([]string{"./..."}, srcPkgs...)
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, spk := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	r := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, repo: repo}
	for _, p := range spk {
		if p != nil {
			r.pkgs[p.Pkg.Path()] = p
		}
	}
	for _, p := range prog.AllPackages() {
		if r.pkgs[p.Pkg.Path()] == nil {
			r.pkgs[p.Pkg.Path()] = p
		}
	}
	return r, nil
}

// externals lists functions without bodies called from packages matching pre.
func (p *Program) externals(pre ...string) []string {
	set := map[string]bool{}
	for fn := range ssautil.AllFunctions(p.prog) {
		if fn.Pkg == nil {
			continue
		}
		ok := false
		for _, x := range pre {
			if strings.HasPrefix(fn.Pkg.Pkg.Path(), x) {
				ok = true
			}
		}
		if !ok {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, isCall := in.(ssa.CallInstruction)
				if !isCall {
					continue
				}
				if f := c.Common().StaticCallee(); f != nil && f.Blocks == nil {
					set[f.String()] = true
				} else if c.Common().IsInvoke() {
					set["invoke "+types.TypeString(c.Common().Value.Type(), nil)+"."+c.Common().Method.Name()] = true
				}
			}
		}
	}
	var l []string
	for k := range set {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
