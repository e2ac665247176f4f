// Package model holds the reference model of a JSON document (an ordered tree
// of raw tokens), its generator and the one PRNG every choice is drawn from.
package model

// Rng is SplitMix64: one integer decides everything drawn from it.
type Rng struct {
	s      uint64
	recent []string // keys drawn before
}

func NewRng(seed uint64) *Rng { return &Rng{s: seed} }

// Mix combines integers into one seed.
func Mix(vs ...uint64) uint64 {
	h := uint64(0x9E3779B97F4A7C15)
	for _, v := range vs {
		h ^= v + 0x9E3779B97F4A7C15 + (h << 6) + (h >> 2)
		r := Rng{s: h}
		h = r.U64()
	}
	return h
}

func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N returns a number in [0,n). n<=0 gives 0.
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a number in [a,b].
func (r *Rng) Range(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability num/den.
func (r *Rng) P(num, den int) bool { return r.N(den) < num }

// LogN returns a number in [1,max], roughly log-uniform.
func (r *Rng) LogN(max int) int {
	if max <= 1 {
		return 1
	}
	bits := 0
	for m := max; m > 0; m >>= 1 {
		bits++
	}
	b := r.Range(1, bits)
	v := 1 + r.N(1<<uint(b))
	if v > max {
		v = 1 + r.N(max)
	}
	return v
}

func (r *Rng) Pick(ss []string) string { return ss[r.N(len(ss))] }
