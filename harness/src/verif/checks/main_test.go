package checks

import (
	"os"
	"testing"

	"verif/vh"
)

func TestMain(m *testing.M) {
	code := m.Run()
	vh.Flush()
	os.Exit(code)
}

// prng is a splitmix generator seeded from a drawn value, so that everything it
// decides is a function of the library's choices.
type prng struct{ s uint64 }

func (r *prng) next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *prng) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.next() % uint64(n))
}
