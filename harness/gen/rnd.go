// Package gen holds the generators shared by the checks.
package gen

import (
	"math/rand"

	"pgregory.net/rapid"
)

// R draws random choices: Int, Bool, Pick go through rapid (they shrink), U
// and F are uniform and come from a PRNG whose seed rapid draws.
type R struct {
	T   *rapid.T
	rng *rand.Rand
}

// New makes a source for one case.
func New(t *rapid.T) *R {
	var s uint64
	for i := 0; i < 4; i++ {
		s = s*0x9e3779b97f4a7c15 + uint64(rapid.Uint16().Draw(t, "seed"))
		s ^= s >> 29
	}
	return &R{T: t, rng: rand.New(rand.NewSource(int64(s)))}
}

// Int draws lo..hi, biased to small values; shrinks to lo.
func (r *R) Int(name string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(r.T, name) }

// Bool draws a fair coin.
func (r *R) Bool(name string) bool { return rapid.Bool().Draw(r.T, name) }

// U is uniform in lo..hi.
func (r *R) U(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + r.rng.Intn(hi-lo+1)
}

// F is uniform in [lo,hi).
func (r *R) F(lo, hi float32) float32 { return lo + (hi-lo)*r.rng.Float32() }

// P is true with probability p.
func (r *R) P(p float64) bool { return r.rng.Float64() < p }

// Perm is a uniform permutation.
func (r *R) Perm(n int) []int { return r.rng.Perm(n) }

// Pick draws one of the values (first ones preferred, shrinks to the first).
func Pick[T any](r *R, name string, vals ...T) T {
	return vals[rapid.IntRange(0, len(vals)-1).Draw(r.T, name)]
}

// Any picks uniformly.
func Any[T any](r *R, vals ...T) T { return vals[r.rng.Intn(len(vals))] }
