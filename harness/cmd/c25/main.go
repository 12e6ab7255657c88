// C25: torus conversion and Gaussian sampling follow their definitions.
package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"

	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/utils"

	"verif/orc"
	"verif/vk"
)

type T = params.Torus

func main() {
	vk.Main(vk.Spec{
		Prop: "C25",
		Rule: "one evaluation = one real number converted and compared with exact rational arithmetic, one torus value converted there and back, or one Gaussian sample entering the distribution tests; the signature is the converted value, or (stddev, centre, seed)",
		Assumptions: []string{
			"distribution tests use thresholds of 7 standard errors (chance of a false alarm below 1e-10 per test)",
			"samples are truncated to units of 2^-32, so standard deviations are tested from 2^-26 up",
		},
		Shards:   func(string) int { return 8 },
		MinEvals: 100000,
		Run:      run,
	})
}

// exact returns frac(x)*2^32 rounded down, exactly.
func exact(x float64) T {
	f := new(big.Float).SetPrec(2000).SetFloat64(x)
	f.Mul(f, new(big.Float).SetMantExp(big.NewFloat(1), 32))
	i := new(big.Int)
	f.Int(i) // towards zero
	m := new(big.Int).Mod(i, new(big.Int).Lsh(big.NewInt(1), 32))
	return T(m.Uint64())
}

func run(c *vk.C) {
	r := c.Rand("conv")
	for i := 0; i < c.Pick(60000, 1000000); i++ {
		var x float64
		switch i % 6 {
		case 0:
			x = r.Float64()
		case 1:
			x = -r.Float64()
		case 2:
			x = (r.Float64() - 0.5) * 2000
		case 3:
			x = math.Ldexp(r.Float64()-0.5, -r.Intn(60))
		case 4:
			x = float64(r.Intn(41)-20) + float64(r.Intn(65))/64
		case 5:
			x = float64(r.Intn(9)-4) + math.Ldexp(float64(r.Intn(5)-2), -32)
		}
		got := utils.F64ToTorus(x)
		if d := orc.Dist(got, exact(x)); d > 1 {
			c.Fail("F64ToTorus", "F64ToTorus(%v) = %#x, %d units from its fractional part %#x", x, uint32(got), d, uint32(exact(x)))
		}
		c.SeenHash(math.Float64bits(x))
		t := T(r.Uint32())
		if i < len(orc.Edges) {
			t = orc.Edges[i]
		}
		f := utils.TorusToF64(t)
		if f < 0 || f >= 1 || f != float64(uint32(t))/4294967296 {
			c.Fail("TorusToF64", "TorusToF64(%#x) = %v", uint32(t), f)
		}
		if b := utils.F64ToTorus(f); b != t {
			c.Fail("TorusToF64", "%#x comes back as %#x", uint32(t), uint32(b))
		}
		if b := utils.F64ToTorus(f - 1); b != t {
			c.Fail("F64ToTorus", "%v (one turn below %v) gives %#x, want %#x", f-1, f, uint32(b), uint32(t))
		}
		c.SeenHash(uint64(t) ^ 1<<50)
	}
	for i := 0; i < c.Pick(200, 2000); i++ {
		size := r.Intn(300)
		if i%10 == 9 { // beyond every dimension in use
			size = []int{1024, 2048, 2049, 4096, 5000, 8193, 65537}[i/10%7] + r.Intn(2)
		}
		v := make([]float64, size)
		for j := range v {
			v[j] = (r.Float64() - 0.5) * 6
		}
		keep := append([]float64(nil), v...)
		got := utils.F64ToTorusVec(v)
		if len(got) != len(v) {
			c.Fail("F64ToTorusVec", "%d values give %d", len(v), len(got))
		}
		for j := range v {
			if got[j] != utils.F64ToTorus(keep[j]) || v[j] != keep[j] {
				c.Fail("F64ToTorusVec", "element %d (%v) gives %#x", j, keep[j], uint32(got[j]))
			}
		}
		c.Seen("vec|%d|%v", len(v), v[:min(len(v), 8)])
	}
	// Gaussian sampling
	for i, sd := range []float64{math.Exp2(-26), 1e-7, 1e-6, 2e-5, 5e-5, 1e-3, 0.01, 0.03} {
		if c.Mine(i) {
			gauss(c, sd)
			tails(c, sd)
		}
	}
	if c.Mine(1) {
		zero(c)
	}
}

// zero: no noise means the centre itself, and a given generator state
// determines the sample.
func zero(c *vk.C) {
	r := c.Rand("zero")
	for i := 0; i < 5000; i++ {
		mu := (r.Float64() - 0.5) * 4
		mt := T(r.Uint32())
		g := rand.New(rand.NewSource(int64(i)))
		if x := utils.GaussianTorus(mt, 0, g); x != mt {
			c.Fail("GaussianTorus", "without noise %#x becomes %#x", uint32(mt), uint32(x))
		}
		if x := utils.GaussianF64(mu, 0, g); orc.Dist(x, exact(mu)) > 1 {
			c.Fail("GaussianF64", "without noise %v becomes %#x", mu, uint32(x))
		}
		s := int64(r.Uint32())
		a := utils.GaussianF64(mu, 1e-3, rand.New(rand.NewSource(s)))
		b := utils.GaussianF64(mu, 1e-3, rand.New(rand.NewSource(s)))
		if a != b {
			c.Fail("GaussianF64", "two samples from generators in the same state differ")
		}
		va := utils.GaussianF64Vec([]float64{mu, mu / 2, -mu}, 1e-3, rand.New(rand.NewSource(s)))
		vb := utils.GaussianF64Vec([]float64{mu, mu / 2, -mu}, 1e-3, rand.New(rand.NewSource(s)))
		if !orc.Eq(va, vb) {
			c.Fail("GaussianF64Vec", "two samples from generators in the same state differ")
		}
		c.Seen("zero|%d", i)
	}
	// vectors of any length: each sample belongs to its own centre, and no
	// stretch of noise comes again within a vector
	for i, l := range []int{0, 1, 2, 3, 255, 256, 257, 1023, 1025, 2047, 2049, 4095, 4096, 4097, 8192, 16385, 70000} {
		const sd = 1e-3
		mus := make([]float64, l)
		for j := range mus {
			mus[j] = r.Float64() - 0.5
		}
		out := utils.GaussianF64Vec(mus, sd, rand.New(rand.NewSource(c.Seed+int64(i))))
		if len(out) != l {
			c.Fail("GaussianF64Vec", "%d samples for %d centres", len(out), l)
		}
		seen := map[[2]int32]bool{}
		again := 0
		var last int32
		for j, o := range out {
			d := int32(o - exact(mus[j]))
			if e := math.Abs(float64(d)) / 4294967296; e > 8.5*sd {
				c.Fail("GaussianF64Vec", "sample %d of %d is %g standard deviations from its centre", j, l, e/sd)
			}
			if j > 0 {
				// rounding moves a repeated noise by a unit
				k := [2]int32{last >> 3, d >> 3}
				if seen[k] {
					if again++; again == 3 {
						c.Fail("GaussianF64Vec", "noises come again within a vector of %d", l)
					}
				}
				seen[k] = true
			}
			last = d
		}
		c.Count("gaussian_vector_samples", int64(l))
		c.Seen("vector|%d", l)
	}
}

func gauss(c *vk.C, sd float64) {
	n := c.Pick(300000, 2000000)
	for v := 0; v < 3; v++ {
		far := map[float64]*[2]float64{3.5: {}, 4: {}, 4.5: {}, 5: {}}
		tot := 0.0
		for ci, mu := range []float64{0, 0.125, -0.125, 0.999999, 0.5} {
			g := rand.New(rand.NewSource(c.Seed*1000 + int64(v*10+ci)))
			name := fmt.Sprintf("%s stddev=%g centre=%g", []string{"GaussianTorus", "GaussianF64", "GaussianF64Vec"}[v], sd, mu)
			centre := exact(mu)
			xs := make([]float64, n)
			switch v {
			case 0:
				for i := range xs {
					xs[i] = orc.Err(utils.GaussianTorus(centre, sd, g), centre)
				}
			case 1:
				for i := range xs {
					xs[i] = orc.Err(utils.GaussianF64(mu, sd, g), centre)
				}
			case 2:
				vlen := []int{1000, 1024, 700, 2048, 37}[ci]
				mus := make([]float64, vlen)
				for i := range mus {
					mus[i] = mu
					if i%2 == 1 {
						mus[i] = -mu
					}
				}
				xs = xs[:n/vlen*vlen]
				for i := 0; i < len(xs); i += vlen {
					out := utils.GaussianF64Vec(mus, sd, g)
					if len(out) != vlen {
						c.Fail(name, "%d samples for %d centres", len(out), vlen)
					}
					for j, o := range out {
						w := centre
						if j%2 == 1 {
							w = exact(-mu)
						}
						xs[i+j] = orc.Err(o, w)
					}
				}
				columns(c, name, xs, vlen, sd)
			}
			judge(c, name, xs, sd)
			for _, x := range xs {
				z := x / sd
				if math.Abs(z) < 3.4 {
					continue
				}
				if math.Abs(z) > 8.5 {
					c.Fail(name, "sample %g standard deviations from the centre", z)
				}
				for q, k := range far {
					if z > q {
						k[0]++
					} else if z < -q {
						k[1]++
					}
				}
			}
			tot += float64(len(xs))
			c.Count("gaussian_samples", int64(len(xs)))
		}
		name := fmt.Sprintf("%s stddev=%g", []string{"GaussianTorus", "GaussianF64", "GaussianF64Vec"}[v], sd)
		for q, k := range far {
			lo := tot * 0.5 * math.Erfc((q+math.Exp2(-31)/sd)/math.Sqrt2)
			hi := tot * 0.5 * math.Erfc((q-math.Exp2(-31)/sd)/math.Sqrt2)
			for _, x := range []float64{k[0], k[1], (k[0] + k[1]) / 2} {
				l, h := lo, hi
				if x == (k[0]+k[1])/2 {
					x, l, h = 2*x, 2*lo, 2*hi
				}
				if poisson(x, l, h) {
					c.Fail(name, "%.0f of %.0f samples lie beyond %g standard deviations, expected %.1f", x, tot, q, h)
				}
			}
			c.Count(fmt.Sprintf("samples_beyond_%g_deviations", q), int64(k[0]+k[1]))
		}
	}
}

// tails counts samples far out, among enough of them for many beyond five
// deviations to be due.
func tails(c *vk.C, sd float64) {
	qs := []float64{4.2, 4.5, 4.8, 5, 5.2}
	n := c.Pick(48<<20, 400<<20)
	mus := []float64{0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25}
	centre := exact(0.25)
	for v, who := range []string{"GaussianTorus", "GaussianF64", "GaussianF64Vec"} {
		g := rand.New(rand.NewSource(c.Seed*1000 + 500 + int64(v)))
		cnt := make([][2]float64, len(qs))
		lim := int32(qs[0] * sd * 4294967296)
		see := func(t T) {
			d := int32(t - centre)
			if d < lim && d > -lim {
				return
			}
			z := float64(d) / 4294967296 / sd
			for i, q := range qs {
				if z > q {
					cnt[i][0]++
				} else if z < -q {
					cnt[i][1]++
				}
			}
		}
		for i := 0; i < n; i += len(mus) {
			switch v {
			case 0:
				for range mus {
					see(utils.GaussianTorus(centre, sd, g))
				}
			case 1:
				for range mus {
					see(utils.GaussianF64(0.25, sd, g))
				}
			case 2:
				for _, t := range utils.GaussianF64Vec(mus, sd, g) {
					see(t)
				}
			}
		}
		tot := float64(n)
		for i, q := range qs {
			lo := tot * 0.5 * math.Erfc((q+math.Exp2(-31)/sd)/math.Sqrt2)
			hi := tot * 0.5 * math.Erfc((q-math.Exp2(-31)/sd)/math.Sqrt2)
			k := cnt[i]
			if poisson(k[0], lo, hi) || poisson(k[1], lo, hi) || poisson(k[0]+k[1], 2*lo, 2*hi) {
				c.Fail(fmt.Sprintf("%s stddev=%g", who, sd), "%.0f and %.0f of %d samples lie beyond %g standard deviations, expected %.1f each", k[0], k[1], n, q, hi)
			}
			c.Count(fmt.Sprintf("tail_samples_beyond_%g_deviations", q), int64(k[0]+k[1]))
		}
		c.Count("tail_samples_drawn", int64(n))
	}
}

// poisson says whether x events are incredible (below 1e-12) for an expectation
// between lo and hi.
func poisson(x, lo, hi float64) bool {
	tail := func(m float64, upper bool) float64 {
		s := 0.0
		for k := 0.0; k < m+40*math.Sqrt(m)+200; k++ {
			if upper && k >= x || !upper && k <= x {
				l, _ := math.Lgamma(k + 1)
				s += math.Exp(k*math.Log(m) - m - l)
			}
		}
		return s
	}
	return x > hi && tail(hi, true) < 1e-12 || x < lo && tail(lo, false) < 1e-12
}

// columns judges each position of vectors of length l, and positions that face
// each other.
func columns(c *vk.C, name string, xs []float64, l int, sd float64) {
	rows := float64(len(xs) / l)
	unit := math.Exp2(-32) / sd
	sum, sq := make([]float64, l), make([]float64, l)
	face, faces := 0.0, 0.0
	for i := 0; i < len(xs); i += l {
		for j := 0; j < l; j++ {
			z := xs[i+j] / sd
			sum[j] += z
			sq[j] += z * z
			if j < l-1-j {
				face += z * xs[i+l-1-j] / sd
				faces++
			}
		}
	}
	for j := range sum {
		if m := sum[j] / rows; math.Abs(m) > 7.5/math.Sqrt(rows)+unit {
			c.Fail(name, "samples at position %d of %d have mean %g standard deviations", j, l, m)
		}
		if v := sq[j] / rows; math.Abs(v-1) > 9.5*math.Sqrt(2/rows)+2*unit {
			c.Fail(name, "samples at position %d of %d have variance %g times the requested one", j, l, v)
		}
	}
	if z := face / math.Sqrt(faces); math.Abs(z) > 7 {
		c.Fail(name, "samples at facing positions of vectors of %d are correlated (%.1f standard errors)", l, z)
	}
}

func judge(c *vk.C, name string, xs []float64, sd float64) {
	n := float64(len(xs))
	var s, s2, lag, s3, s4 float64
	cnt := map[float64][2]float64{}
	prev := 0.0
	for _, x := range xs {
		z := x / sd
		s += z
		s2 += z * z
		s3 += z * z * z
		s4 += z * z * z * z
		lag += z * prev
		prev = z
		for _, q := range []float64{0.5, 1, 2, 3} {
			k := cnt[q]
			if z > q {
				k[0]++
			}
			if z < -q {
				k[1]++
			}
			cnt[q] = k
		}
		c.SeenHash(math.Float64bits(x))
	}
	unit := math.Exp2(-32) / sd // truncation
	if m := s / n; math.Abs(m) > 7/math.Sqrt(n)+unit {
		c.Fail(name, "mean is %g standard deviations from the centre over %g samples", m, n)
	}
	if v := math.Sqrt(s2 / n); math.Abs(v-1) > 7/math.Sqrt(2*n)+unit {
		c.Fail(name, "standard deviation is %g times the requested one over %g samples", v, n)
	}
	if l := lag / n; math.Abs(l) > 7/math.Sqrt(n) {
		c.Fail(name, "consecutive samples are correlated: %g", l)
	}
	if l, z := orc.WorstLag(xs, 1<<14); math.Abs(z) > 7.5 {
		c.Fail(name, "samples %d apart are correlated (%.1f standard errors)", l, z)
	}
	if sd >= 1e-7 { // magnitudes too: no sample may decide the size of another
		abs := make([]float64, len(xs))
		for i, x := range xs {
			abs[i] = math.Abs(x)
		}
		if l, z := orc.WorstLag(abs, 1<<14); math.Abs(z) > 7.5 {
			c.Fail(name, "magnitudes of samples %d apart are correlated (%.1f standard errors)", l, z)
		}
	}
	c.Count("lags_compared", 1<<15)
	if k := s3 / n; math.Abs(k) > 7*math.Sqrt(15/n)+3*unit {
		c.Fail(name, "third moment is %g, want 0", k)
	}
	if k := s4 / n; math.Abs(k-3) > 7*math.Sqrt(96/n)+12*unit {
		c.Fail(name, "fourth moment is %g, want 3", k)
	}
	for q, k := range cnt {
		p := 0.5 * math.Erfc(q/math.Sqrt2)
		slack := 7*math.Sqrt(p*(1-p)/n) + unit
		for side, x := range k {
			if math.Abs(x/n-p) > slack {
				c.Fail(name, "share of samples beyond %g standard deviations on side %d is %g, want %g±%g", q, side, x/n, p, slack)
			}
		}
	}
	c.Sample(fmt.Sprintf("%s: mean %.2g sd %.4f (in units of the requested one)", name, s/n, math.Sqrt(s2/n)))
}
