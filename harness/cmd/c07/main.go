// C07: message encoding and decoding are inverse, also under bounded noise.
package main

import (
	"fmt"
	"math"

	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"

	"verif/orc"
	"verif/vk"
)

type T = params.Torus

func main() {
	vk.Main(vk.Spec{
		Prop: "C07",
		Rule: "one evaluation = one message encoded, perturbed (from nothing to just below half the distance between encodings) and decoded, or one torus value switched to the table size and compared with exact rational rounding; the signature is (modulus, scale, message, perturbation) or (size, value)",
		Assumptions: []string{
			"perturbations stay 4 units of 2^-32 plus the truncation error of the encoding below half the distance",
			"perturbations across zero are only applied where the scale divides the torus into a whole multiple of the modulus (the default scale, 1/m, 1/(4m), 1/8 for booleans)",
		},
		Shards:   func(string) int { return 8 },
		MinEvals: 100000,
		Run:      run,
	})
}

func mod(x, m int) int {
	x %= m
	if x < 0 {
		x += m
	}
	return x
}

func run(c *vk.C) {
	idx := 0
	moduli := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 257, 1000, 1024, 4096, 1<<16 - 1, 1 << 16, 99991, 1<<20 - 3, 1 << 20, 3000001}
	if !c.Quick() {
		for m := 34; m < 300; m++ {
			moduli = append(moduli, m)
		}
	}
	for _, m := range moduli {
		scales := []struct {
			name string
			s    float64
			wrap bool // 1/s is a whole multiple of m
			enc  *lut.Encoder
		}{
			{"default", 1 / float64(2*m), true, lut.NewEncoder(m)},
			{"1/(2m)", 1 / float64(2*m), true, lut.NewEncoderWithScale(m, 1/float64(2*m))},
			{"1/m", 1 / float64(m), true, lut.NewEncoderWithScale(m, 1/float64(m))},
			{"1/(4m)", 1 / float64(4*m), true, lut.NewEncoderWithScale(m, 1/float64(4*m))},
			{"1/(8m)", 1 / float64(8*m), true, lut.NewEncoderWithScale(m, 1/float64(8*m))},
			{"0.7/m", 0.7 / float64(m), false, lut.NewEncoderWithScale(m, 0.7/float64(m))},
			{"0.31/m", 0.31 / float64(m), false, lut.NewEncoderWithScale(m, 0.31/float64(m))},
		}
		for _, sc := range scales {
			idx++
			if !c.Mine(idx) {
				continue
			}
			name := fmt.Sprintf("m=%d scale=%s", m, sc.name)
			e := sc.enc
			if e.MessageModulus != m || math.Abs(e.Scale-sc.s) > 1e-15 {
				c.Fail(name, "encoder has modulus %d and scale %g", e.MessageModulus, e.Scale)
			}
			r := c.Rand("enc %s", name)
			half := int64(sc.s*math.Exp2(31)) - 6
			var ks []int
			if m <= 4096 {
				for k := -3 * m; k < 4*m; k++ {
					ks = append(ks, k)
				}
			} else {
				ks = []int{0, 1, -1, m - 1, m, m + 1, -m, 1 - m, -m - 1, m / 2, 2*m - 1}
				for i := 0; i < 20000; i++ {
					ks = append(ks, r.Intn(7*m)-3*m)
				}
			}
			for i := 0; i < 40; i++ { // far beyond the message space
				for _, b := range []int{1 << 16, 1 << 31, 1 << 32, 1 << 52, math.MaxInt - 64} {
					ks = append(ks, b+r.Intn(64), -b-r.Intn(64))
				}
			}
			ks = append(ks, math.MaxInt, math.MinInt)
			for _, k := range ks {
				if m > 64 && k < -m && k >= -3*m && k%7 != 0 {
					continue
				}
				x := mod(k, m)
				t := e.Encode(k)
				if d := orc.Dist(t, orc.Enc(float64(x)*sc.s)); d > 1 {
					c.Fail(name, "Encode(%d) = %#x, %d units from %d*scale", k, uint32(t), d, x)
				}
				cs := []float64{0.125, 1 / float64(m), r.Float64() / float64(m)}[mod(k, 3)]
				if d := orc.Dist(e.EncodeWithCustomScale(k, cs), orc.Enc(float64(x)*cs)); d > 1 {
					c.Fail(name, "EncodeWithCustomScale(%d, %g) is %d units off", k, cs, d)
				}
				pert := []int64{0, 1, -1, half, -half}
				for i := 0; i < 4; i++ {
					pert = append(pert, r.Int63n(2*half+1)-half)
				}
				for _, d := range pert {
					if x == 0 && d < 0 && !sc.wrap {
						continue
					}
					if x == m-1 && d > 0 && sc.s*float64(m) > 1-1e-9 && !sc.wrap {
						continue
					}
					v := t + T(d)
					if got := e.Decode(v); got != x {
						c.Fail(name, "Decode(Encode(%d)%+d units) = %d, want %d (half distance is %d)", k, d, got, x, half)
					}
					if got := e.DecodeBool(v); got != (x != 0) {
						c.Fail(name, "DecodeBool(Encode(%d)%+d units) = %v", k, d, got)
					}
					c.SeenHash(uint64(m)<<40 ^ uint64(idx)<<52 ^ uint64(uint32(v)))
				}
				c.Count("messages", 1)
			}
			c.Sample(fmt.Sprintf("%s: messages %d..%d, perturbations up to %d units, all decoded", name, -3*m, 4*m-1, half))
		}
	}
	// switching to the table size
	for pi, p := range orc.Profiles {
		if !c.Mine(pi) {
			continue
		}
		p.Use()
		n := params.GetTRGSWLv1().N
		for _, size := range []int{n, 2 * n, 16, 1000, 3} {
			g := lut.NewGenerator(2)
			g.LookUpTableSize = size
			r := c.Rand("ms %s %d", p.Name, size)
			step := math.Exp2(32) / float64(size)
			try := func(v T) {
				// nearest multiple of 2^32/size, exactly
				num := uint64(v) * uint64(size)
				q, rem := num>>32, num&0xffffffff
				if rem == 1<<31 {
					return // tie
				}
				if rem > 1<<31 {
					q++
				}
				want := int(q) % size
				if got := g.ModSwitch(v); got != want {
					c.Fail(fmt.Sprintf("profile=%s size=%d", p.Name, size), "ModSwitch(%#x) = %d, want %d", uint32(v), got, want)
				}
				c.SeenHash(uint64(size)<<33 ^ uint64(uint32(v)))
			}
			for i := 0; i < size; i++ {
				b := uint64(math.Round((float64(i) + 0.5) * step))
				for d := -2; d <= 2; d++ {
					try(T(b + uint64(int64(d))))
				}
				try(T(uint64(float64(i) * step)))
			}
			for _, v := range orc.Edges {
				try(v)
			}
			for i := 0; i < c.Pick(20000, 300000); i++ {
				try(T(r.Uint32()))
			}
			c.Count("modswitch_sizes", 1)
		}
	}
}
