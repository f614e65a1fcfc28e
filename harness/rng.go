package main

// Rng is a splitmix64 generator: every case owns one, seeded from (seed, property, stage, index).
type Rng struct{ s uint64 }

func mix64(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func hashStr(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return mix64(h)
}

func newRng(seed uint64, parts ...string) *Rng {
	h := mix64(seed)
	for _, p := range parts {
		h = hashStr(h, p)
	}
	return &Rng{s: h}
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// N returns a number in [0,n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// R returns a number in [a,b].
func (r *Rng) R(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability pct/100.
func (r *Rng) P(pct int) bool { return r.N(100) < pct }

func pick[X any](r *Rng, xs []X) X { return xs[r.N(len(xs))] }

// W picks an index by weight.
func (r *Rng) W(ws ...int) int {
	s := 0
	for _, w := range ws {
		s += w
	}
	k := r.N(s)
	for i, w := range ws {
		if k < w {
			return i
		}
		k -= w
	}
	return len(ws) - 1
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
