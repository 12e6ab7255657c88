package orc

import "math/bits"

// GF2 collects bit vectors and knows their rank. Vectors of independent fair bits
// reach full rank d after d+64 of them but for a chance of 2^-64; a relation that
// all of them satisfy keeps the rank below d for ever.
type GF2 struct {
	D, Rank, N int
	basis      [][]uint64 // by leading bit
}

func NewGF2(d int) *GF2 { return &GF2{D: d, basis: make([][]uint64, d)} }

// Done tells that the verdict is in.
func (g *GF2) Done() bool { return g.Rank == g.D || g.N >= g.D+64 }

// Deficient tells that a relation holds between the bits.
func (g *GF2) Deficient() bool { return g.N >= g.D+64 && g.Rank < g.D }

// Add takes the vector of the bits bit(0), bit(1), ...
func (g *GF2) Add(bit func(i int) bool) {
	if g.Done() {
		return
	}
	g.N++
	v := make([]uint64, (g.D+63)/64)
	for i := 0; i < g.D; i++ {
		if bit(i) {
			v[i/64] |= 1 << (i % 64)
		}
	}
	for w := 0; w < len(v); {
		if v[w] == 0 {
			w++
			continue
		}
		i := w*64 + bits.TrailingZeros64(v[w])
		b := g.basis[i]
		if b == nil {
			g.basis[i] = v
			g.Rank++
			return
		}
		for k := w; k < len(v); k++ {
			v[k] ^= b[k]
		}
	}
}
