package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type knownEntry struct {
	prop, harness, label, text string
}

// readKnown: lines "finding: property=Cxx harness=Sym_... label=... | text".
func readKnown(verif string) []knownEntry {
	f, err := os.Open(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []knownEntry
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		head, text, _ := strings.Cut(strings.TrimPrefix(l, "finding:"), "|")
		e := knownEntry{text: strings.TrimSpace(text)}
		if i := strings.Index(head, "label="); i >= 0 {
			e.label = strings.TrimSpace(head[i+6:])
			head = head[:i]
		}
		for _, w := range strings.Fields(head) {
			k, v, _ := strings.Cut(w, "=")
			switch k {
			case "property":
				e.prop = v
			case "harness":
				e.harness = v
			}
		}
		out = append(out, e)
	}
	return out
}

func (e knownEntry) id() string { return e.prop + "/" + e.harness + "/" + e.label }

func (r *report) knownLines(known []knownEntry) {
	for _, e := range known {
		if e.prop == r.prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", e.prop, e.text)
		}
	}
}

func (r *report) write() {
	type obj = map[string]any
	names := sortedKeys(r.funcs)
	var own, lib []string
	mod := moduleName(r.repo)
	for _, n := range names {
		if strings.Contains(n, mod+"/") || strings.HasPrefix(n, mod+".") {
			if !strings.Contains(n, ".Sym_") && !strings.Contains(n, ".SymT_") && !strings.Contains(n, ".sym") {
				own = append(own, n)
			}
		} else {
			lib = append(lib, n)
		}
	}
	var asserts, proved, open, failed, paths, unsupN int
	for _, h := range r.harnesses {
		paths += h.Paths
		unsupN += len(h.Unsup)
		for _, l := range h.Asserts {
			asserts += l.Checked
			proved += l.Proved
			open += l.Open
			failed += l.Failed
		}
	}
	meta := readMeta(r.verif, r.prop)
	var samples []any
	for _, h := range r.harnesses {
		samples = append(samples, fmt.Sprintf("%s: %d paths, %d symbolic variables", h.Name, h.Paths, h.Vars))
		if len(samples) >= 6 {
			break
		}
	}
	cov := obj{
		"explanation": "Symbolic execution of the listed functions from go/ssa of the current source; each assertion instance on each explored path became one SMT query (negated assertion and path condition) that the solver had to refute for all values of the symbolic inputs within the bounds.",
		"states":      paths, "transitions": int64(0), "traces_validated_against_impl": r.replayed, "samples": samples,
		"obligations": asserts, "discharged": proved, "undecided": open + unsupN, "failed": failed,
		"functions_encoded": own, "library_functions_encoded": lib,
		"harnesses": r.harnesses, "bounds": meta.Bounds, "outside_the_bounds": meta.Outside,
		"solver": obj{"name": "z3 (SMT-LIB 2 over integer arithmetic)", "queries": stats.queries, "cached": stats.cached, "unsat": stats.unsat, "sat": stats.sat,
			"unknown": stats.unknown, "constant_after_normalisation": stats.trivial, "seconds": round3(float64(stats.nanos) / 1e9), "longest_s": round3(float64(stats.maxNanos) / 1e9)},
		"problems": r.problems, "inconclusive_counterexamples": r.inconcl,
	}
	var tr int64
	for _, h := range r.harnesses {
		tr += h.Steps
	}
	cov["transitions"] = tr
	viol := r.confirmed
	if viol == nil {
		viol = []string{}
	}
	lvl := meta.Level
	if lvl == "" {
		lvl = "other"
	}
	e := obj{"property": r.prop, "tier": r.tier, "seed": 1, "level": lvl, "coverage": cov,
		"assumptions": meta.Assumptions, "wall_s": round3(time.Since(r.start).Seconds()), "violations": len(viol)}
	b, _ := json.MarshalIndent(e, "", " ")
	os.MkdirAll(filepath.Join(r.verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(r.verif, "evidence", r.prop+".json"), append(b, '\n'), 0o644)
}

func round3(x float64) float64 { return float64(int64(x*1000)) / 1000 }

type propMeta struct {
	Level       string   `json:"level"`
	Bounds      []string `json:"bounds"`
	Outside     []string `json:"outside"`
	Assumptions []string `json:"assumptions"`
}

// readMeta: bounds and assumptions of a property, from harness/<prop>/meta.json with common assumptions added.
func readMeta(verif, prop string) propMeta {
	var m, com propMeta
	if b, err := os.ReadFile(filepath.Join(verif, "harness", prop, "meta.json")); err == nil {
		json.Unmarshal(b, &m)
	}
	if b, err := os.ReadFile(filepath.Join(verif, "harness", "common", "meta.json")); err == nil {
		json.Unmarshal(b, &com)
	}
	m.Assumptions = append(m.Assumptions, com.Assumptions...)
	m.Outside = append(m.Outside, com.Outside...)
	if m.Assumptions == nil {
		m.Assumptions = []string{}
	}
	return m
}

var _ = sort.Strings
