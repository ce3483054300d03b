package main

// Rand is the simulator's own generator (splitmix64): its stream depends on
// nothing but the seed.
type Rand struct{ s uint64 }

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func NewRand(seed uint64) *Rand { return &Rand{mix(seed)} }

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

func (r *Rand) Range(lo, hi int) int { return lo + r.N(hi-lo+1) }

// Many is Range, and now and then a great number.
func (r *Rand) Many(lo, hi, most int) int {
	if r.P(1, 150) {
		return r.Range(hi, most)
	}
	return r.Range(lo, hi)
}

func (r *Rand) Bool() bool { return r.U64()&1 == 1 }

// P reports true with probability num/den.
func (r *Rand) P(num, den int) bool { return r.N(den) < num }

func (r *Rand) Pick(xs ...int) int { return xs[r.N(len(xs))] }

func (r *Rand) PickS(xs ...string) string { return xs[r.N(len(xs))] }

// W picks an index with the given weights.
func (r *Rand) W(ws ...int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	x := r.N(t)
	for i, w := range ws {
		if x < w {
			return i
		}
		x -= w
	}
	return len(ws) - 1
}
