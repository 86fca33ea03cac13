// Package hook replays the values of a counterexample: inputs by name, random draws and digests in program order.
package hook

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"strings"
)

type model struct {
	Harness string            `json:"harness"`
	Label   string            `json:"label"`
	Inputs  map[string]string `json:"inputs"`
	Seq     []string          `json:"seq"`
	Tier    string            `json:"tier"`
}

var m model
var pos int
var names = map[string]int{}
var ninputs int
var failed = map[string]bool{}
var diverged bool

func Load(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &m); err != nil {
		panic(err)
	}
	pos, names, ninputs = 0, map[string]int{}, 0
}

func Thorough() bool { return m.Tier == "thorough" }

func Input(name string) *big.Int {
	k := name
	if names[name] > 0 {
		k = fmt.Sprintf("%s#%d", name, ninputs)
	}
	names[name]++
	ninputs++
	s, ok := m.Inputs[k]
	if !ok {
		return nil
	}
	x, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return nil
	}
	return x
}

// Next returns the next value of the recorded sequence, nil when it is exhausted or of another kind.
func Next(kind string) *big.Int {
	if pos >= len(m.Seq) {
		return nil
	}
	k, v, _ := strings.Cut(m.Seq[pos], ":")
	if k != kind {
		if !diverged {
			diverged = true
			fmt.Printf("\nVERIF-DIVERGED at %d: wanted %s, recorded %s\n", pos, kind, k)
		}
		return nil
	}
	pos++
	x, ok := new(big.Int).SetString(v, 10)
	if !ok {
		return nil
	}
	return x
}

func Fail(label string) {
	if !failed[label] {
		failed[label] = true
		fmt.Printf("\nVERIF-ASSERT-FAILED %s\n", label)
	}
}

func Reach(label string) { fmt.Printf("\nVERIF-REACHED %s\n", label) }

// Exit is raised in place of ending the process.
type Exit struct{ Why string }
