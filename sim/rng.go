package main

// rng is a splitmix64 generator: small, fast and stable across Go versions, so
// one seed is one execution.
type rng struct{ s uint64 }

func newRng(seed uint64) *rng { return &rng{seed} }

func (r *rng) u64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *rng) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.u64() % uint64(n))
}

func (r *rng) in(lo, hi int) int { return lo + r.n(hi-lo+1) }

func (r *rng) p(pct int) bool { return r.n(100) < pct }

func (r *rng) one(of int) bool { return r.n(of) == 0 }

func (r *rng) pick(s ...string) string { return s[r.n(len(s))] }

// geo draws from a geometric-like distribution with the given mean.
func (r *rng) geo(mean int) int {
	if mean <= 1 {
		return 1
	}
	k := 1
	for k < mean*20 && r.n(mean) != 0 {
		k++
	}
	return k
}

func (r *rng) fork() *rng { return newRng(r.u64()) }

func mix(vals ...uint64) uint64 {
	h := uint64(0x51_7C_C1_B7_27_22_0A_95)
	for _, v := range vals {
		h ^= v
		h *= 0x9E3779B97F4A7C15
		h ^= h >> 29
	}
	return h
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}
