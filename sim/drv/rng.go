package main

// rng is the only source of random choices in the driver.
type rng struct{ s uint64 }

func newRng(seed uint64) *rng { return &rng{seed*0x9E3779B97F4A7C15 + 0x1234567} }

func (r *rng) next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// n returns a number in [0, k).
func (r *rng) n(k int) int {
	if k <= 0 {
		return 0
	}
	return int(r.next() % uint64(k))
}

// in returns a number in [a, b].
func (r *rng) in(a, b int) int { return a + r.n(b-a+1) }

func (r *rng) pct(p int) bool { return r.n(100) < p }

func pick[T any](r *rng, l []T) T { return l[r.n(len(l))] }

func shuffle[T any](r *rng, l []T) {
	for i := len(l) - 1; i > 0; i-- {
		j := r.n(i + 1)
		l[i], l[j] = l[j], l[i]
	}
}
