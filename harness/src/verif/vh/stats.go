// Package vh holds what the checks share: case statistics, value generators,
// conversions between the driver's values and the reference form, error
// classification and the runner that turns panics and hangs into results.
package vh

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"sort"
	"sync"
)

type stat struct {
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Keys        []uint64       `json:"keys"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
	keys        map[uint64]bool
}

var (
	statMu sync.Mutex
	stats  = map[string]*stat{}
)

// Note records one finished case of a check. key identifies the case; cases
// with the same key count once. classes are counted for the distribution.
func Note(name, key string, nontrivial bool, classes ...string) {
	statMu.Lock()
	defer statMu.Unlock()
	s := stats[name]
	if s == nil {
		s = &stat{Classes: map[string]int{}, keys: map[uint64]bool{}}
		stats[name] = s
	}
	s.Evaluations++
	for _, c := range classes {
		s.Classes[c]++
	}
	if !nontrivial {
		return
	}
	s.Nontrivial++
	h := fnv.New64a()
	h.Write([]byte(key))
	k := h.Sum64()
	if s.keys[k] {
		return
	}
	s.keys[k] = true
	if len(s.Samples) < 3 || (len(s.keys)%97 == 0 && len(s.Samples) < 8) {
		if len(key) > 1500 {
			key = key[:1500] + "..."
		}
		s.Samples = append(s.Samples, key)
	}
}

// Flush writes the statistics to $VERIF_STATS.
func Flush() {
	p := os.Getenv("VERIF_STATS")
	if p == "" {
		return
	}
	statMu.Lock()
	defer statMu.Unlock()
	for _, s := range stats {
		s.Keys = s.Keys[:0]
		for k := range s.keys {
			s.Keys = append(s.Keys, k)
		}
		sort.Slice(s.Keys, func(i, j int) bool { return s.Keys[i] < s.Keys[j] })
	}
	b, err := json.Marshal(stats)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(p, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write stats:", err)
		os.Exit(3)
	}
}

// Last writes a description of the case about to run, for crashes that end the
// whole process. It is a no-op unless $VERIF_LAST is set.
func Last(s string) {
	if p := os.Getenv("VERIF_LAST"); p != "" {
		os.WriteFile(p, []byte(s), 0o644)
	}
}
