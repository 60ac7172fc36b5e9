// Package core holds what both simulators share: the seeded generator, reports, evidence and replay files.
package core

// Rng is a splitmix64 generator: one integer decides everything.
type Rng struct{ s uint64 }

// NewRng creates a generator.
func NewRng(seed uint64) *Rng { return &Rng{seed} }

// Next returns the next number.
func (r *Rng) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a number in [0,n).
func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

// Chance returns true with probability num/den.
func (r *Rng) Chance(num, den int) bool { return r.Intn(den) < num }

// Bool flips a coin.
func (r *Rng) Bool() bool { return r.Next()&1 == 1 }

// Fork derives an independent generator.
func (r *Rng) Fork() *Rng { return NewRng(r.Next()) }

// Pick chooses an element.
func Pick[T any](r *Rng, s []T) T { return s[r.Intn(len(s))] }

// Shuffle permutes a slice.
func Shuffle[T any](r *Rng, s []T) {
	for i := len(s) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		s[i], s[j] = s[j], s[i]
	}
}

// Mix derives a seed from several numbers.
func Mix(vs ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, v := range vs {
		h ^= v
		h *= 0x9fb21c651e98df25
		h ^= h >> 29
		h *= 0x9e3779b97f4a7c15
		h ^= h >> 32
	}
	return h
}

// MixStr hashes a string with a seed.
func MixStr(seed uint64, s string) uint64 {
	h := seed ^ 0xcbf29ce484222325
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 0x100000001b3
	}
	return Mix(h)
}
