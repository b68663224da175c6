package main

// Rng is the only source of choice in the simulator: a splitmix64 stream
// derived from VERIF_SEED and the run index.  Nothing in logging or statistics
// draws from it.
type Rng struct{ s uint64 }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func newRng(parts ...uint64) *Rng {
	s := uint64(0x1234567)
	for _, p := range parts {
		s = mix(s + 0x9e3779b97f4a7c15 + p*0xd6e8feb86659fd93)
	}
	return &Rng{s}
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

// N returns a value in [0,n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// P is true with probability num/den.
func (r *Rng) P(num, den int) bool { return r.N(den) < num }

func (r *Rng) Range(lo, hi int) int { return lo + r.N(hi-lo+1) }

func pick[T any](r *Rng, xs []T) T { return xs[r.N(len(xs))] }
