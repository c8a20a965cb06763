package vh

import (
	"bufio"
	"encoding/json"
	"os"
	"sync"
)

var (
	knownOnce sync.Once
	known     map[string]bool
)

// Known reports whether the finding is listed as known (not fixed) in the
// committed known-findings file, whose path is in $VERIF_KNOWN. Occurrences
// are counted as class "known:<id>".
func Known(id string) bool {
	knownOnce.Do(func() {
		known = map[string]bool{}
		f, err := os.Open(os.Getenv("VERIF_KNOWN"))
		if err != nil {
			return
		}
		defer f.Close()
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<20)
		for sc.Scan() {
			var e struct{ ID, Status string }
			if json.Unmarshal(sc.Bytes(), &e) == nil && e.Status == "known" {
				known[e.ID] = true
			}
		}
	})
	return known[id]
}
