// C15: gadget decomposition recombines to the nearest representable value.
package main

import (
	"fmt"
	"math/rand"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"

	"verif/orc"
	"verif/vk"
)

type T = params.Torus

func main() {
	vk.Main(vk.Spec{
		Prop: "C15",
		Rule: "one evaluation = one torus coefficient decomposed with the cloud key's offset: digit range, distance of the weighted sum, and equality of the digits over positions, buffers and implementations; the signature is (profile, implementation, coefficient)",
		Assumptions: []string{
			"the digits used inside the two external-product implementations are read off by multiplying with plaintext selector matrices (one unit entry, no noise), for which the transform is exact",
		},
		Shards:   func(string) int { return 8 },
		MinEvals: 500000,
		Run:      run,
	})
}

func run(c *vk.C) {
	for pi, p := range orc.Profiles {
		for half := 0; half < 2; half++ {
			if !c.Mine(2*pi + half) {
				continue
			}
			p.Use()
			direct(c, p, half)
			inside(c, p, half)
			c.Guard("profile="+p.Name+" other gadgets", func() { generic(c, p, half) })
		}
	}
}

type gadget struct {
	n, l, bgbit int
	off         T
}

func cur() gadget {
	g := params.GetTRGSWLv1()
	return gadget{g.N, g.L, int(g.BGBIT), cloudkey.NewCloudKeyNoKSK().DecompositionOffset}
}

// bound is half of the smallest weight (0 when the gadget covers every bit).
func (g gadget) bound() int64 {
	rest := 32 - g.l*g.bgbit
	if rest == 0 {
		return 0
	}
	return int64(1) << (rest - 1)
}

func (g gadget) check(c *vk.C, name string, v T, digit func(i int) int32) {
	var sum T
	for i := 0; i < g.l; i++ {
		d := digit(i)
		if int64(d) > int64(1)<<(g.bgbit-1) || int64(d) < -(int64(1)<<(g.bgbit-1)) {
			c.Fail(name, "coefficient %#x: digit %d is %d, beyond half the base %d", uint32(v), i, d, 1<<(g.bgbit-1))
		}
		sum += T(d) << (32 - (i+1)*g.bgbit)
	}
	if d := orc.Dist(sum, v); d > g.bound() {
		c.Fail(name, "coefficient %#x: digits recombine to %#x, off by %d, allowed %d", uint32(v), uint32(sum), d, g.bound())
	}
}

func edges(g gadget, r *rand.Rand) []T {
	var out []T
	out = append(out, orc.Edges...)
	for i := 0; i <= 32; i++ {
		b := T(uint64(1) << i)
		for d := -2; d <= 2; d++ {
			out = append(out, b+T(d), -b+T(d), b+b>>1+T(d), g.off+T(d), -g.off+T(d), b-g.off+T(d))
		}
	}
	// around the borders between representable values
	w := T(1) << (32 - g.l*g.bgbit)
	for i := 0; i < 400; i++ {
		k := T(r.Uint32()) * w
		for d := -2; d <= 2; d++ {
			out = append(out, k+T(d), k+w/2+T(d))
		}
	}
	return out
}

func direct(c *vk.C, p orc.Profile, half int) {
	g := cur()
	r := c.Rand("direct %s %d", p.Name, half)
	n := g.n
	dec := poly.NewDecomposer(n, 2*g.l)
	bufs := [][]poly.Poly{dec.GetPolyDecomposedBuffer(g.l), make([]poly.Poly, g.l)}
	for i := range bufs[1] {
		bufs[1][i] = poly.NewPoly(n)
	}
	name := fmt.Sprintf("profile=%s DecomposePolyAssign", p.Name)
	do := func(v []T) {
		keep := orc.HashT(v)
		for _, b := range bufs {
			for i := range b {
				orc.Fill(r, b[i].Coeffs[:8])
			}
			poly.DecomposePolyAssign(v, g.bgbit, g.l, g.off, b)
		}
		if orc.HashT(v) != keep {
			c.Fail(name, "the input changed")
		}
		for j, x := range v {
			g.check(c, name, x, func(i int) int32 { return int32(bufs[0][i].Coeffs[j]) })
			for i := 0; i < g.l; i++ {
				if bufs[0][i].Coeffs[j] != bufs[1][i].Coeffs[j] {
					c.Fail(name, "the digits of %#x depend on the buffer", uint32(x))
				}
			}
			c.SeenHash(uint64(p.Level)<<33 ^ uint64(x))
		}
	}
	e := edges(g, r)
	for i := 0; i < len(e); i += n {
		v := make([]T, n)
		copy(v, e[i:min(len(e), i+n)])
		do(v)
	}
	v := make([]T, n)
	for k := 0; k < c.Pick(60, 1500); k++ {
		orc.Mixed(r, v)
		do(v)
	}
	// the same coefficient at every position
	x := T(r.Uint32())
	for j := range v {
		v[j] = x
	}
	do(v)
	for j := range v {
		for i := 0; i < g.l; i++ {
			if bufs[0][i].Coeffs[j] != bufs[0][i].Coeffs[0] {
				c.Fail(name, "the digits of %#x depend on the position (%d)", uint32(x), j)
			}
		}
	}
	if !c.Quick() && half == 0 {
		// every coefficient value there is, without recording signatures
		out := bufs[0]
		w := 0
		for base := uint64(0); base < 1<<32; base += uint64(n) {
			for j := range v {
				v[j] = T(base + uint64(j))
			}
			poly.DecomposePolyAssign(v, g.bgbit, g.l, g.off, out)
			for j := range v {
				var sum T
				ok := true
				for i := 0; i < g.l; i++ {
					d := int32(out[i].Coeffs[j])
					if d > 1<<(g.bgbit-1) || d < -(1<<(g.bgbit-1)) {
						ok = false
					}
					sum += T(d) << (32 - (i+1)*g.bgbit)
				}
				if !ok || orc.Dist(sum, v[j]) > g.bound() {
					g.check(c, name, v[j], func(i int) int32 { return int32(out[i].Coeffs[j]) })
				}
			}
			w++
		}
		c.Count("exhaustive_coefficients", 1<<32)
	}
	c.Sample(fmt.Sprintf("profile=%s: %d levels of %d bits, offset %#x, allowed distance %d", p.Name, g.l, g.bgbit, uint32(g.off), g.bound()))
}

// generic decomposes with bases, levels and lengths no profile has.
func generic(c *vk.C, p orc.Profile, half int) {
	r := c.Rand("generic %s %d", p.Name, half)
	for k := 0; k < c.Pick(150, 3000); k++ {
		g := gadget{n: 1 + r.Intn(3000), bgbit: 1 + r.Intn(16)}
		if k%4 == 0 {
			g.n = 1 << (4 + r.Intn(10))
		}
		g.l = 1 + r.Intn(32/g.bgbit)
		if k%3 == 0 {
			g.l = 32 / g.bgbit
		}
		for i := 1; i <= g.l; i++ {
			g.off += T(1) << (g.bgbit - 1) << (32 - i*g.bgbit)
		}
		g.off += T(g.bound())
		size := 16
		for size < g.n {
			size *= 2
		}
		out := make([]poly.Poly, g.l+r.Intn(3))
		for i := range out {
			out[i] = poly.NewPoly(size)
			orc.Fill(r, out[i].Coeffs)
		}
		v := make([]T, g.n)
		orc.Mixed(r, v)
		if k%2 == 0 {
			e := edges(g, r)
			for j := range v {
				v[j] = e[r.Intn(len(e))]
			}
		}
		h := orc.HashT(v)
		name := fmt.Sprintf("DecomposePolyAssign, %d levels of %d bits, %d coefficients", g.l, g.bgbit, g.n)
		poly.DecomposePolyAssign(v, g.bgbit, g.l, g.off, out)
		if orc.HashT(v) != h {
			c.Fail(name, "the input changed")
		}
		for j, x := range v {
			g.check(c, name, x, func(i int) int32 { return int32(out[i].Coeffs[j]) })
			c.SeenHash(uint64(g.bgbit)<<40 ^ uint64(g.l)<<50 ^ uint64(x))
		}
		c.Count("generic_gadgets", 1)
	}
}

// inside reads the digits the external products use.
func inside(c *vk.C, p orc.Profile, half int) {
	g := cur()
	r := c.Rand("inside %s %d", p.Name, half)
	n := g.n
	pe := poly.NewEvaluator(n)
	ev := evaluator.NewEvaluator(n)
	// selector i: row i holds the constant 1, all else is zero
	sel := make([]*trgsw.TRGSWLv1FFT, 2*g.l)
	for i := range sel {
		m := trgsw.NewTRGSWLv1()
		for _, t := range m.TRLWE {
			for j := range t.A {
				t.A[j], t.B[j] = 0, 0
			}
		}
		m.TRLWE[i].A[0] = 1
		m.TRLWE[i].B[0] = T(0xffffffff) // minus one
		sel[i] = trgsw.NewTRGSWLv1FFT(m, pe)
	}
	e := edges(g, r)
	for k := 0; k < c.Pick(6, 60); k++ {
		in := trlwe.NewTRLWELv1()
		orc.Fill(r, in.A)
		orc.Fill(r, in.B)
		if k%2 == 1 {
			for j := range in.A {
				in.A[j] = e[r.Intn(len(e))]
				in.B[j] = e[r.Intn(len(e))]
			}
		}
		keep := orc.CloneRing(in)
		for impl := 0; impl < 2; impl++ {
			name := fmt.Sprintf("profile=%s inside %s", p.Name, []string{"trgsw.ExternalProductWithFFT", "Evaluator.ExternalProductAssign"}[impl])
			digits := make([][]T, 2*g.l)
			for i := range sel {
				out := trlwe.NewTRLWELv1()
				if impl == 0 {
					out = orc.CloneRing(trgsw.ExternalProductWithFFT(sel[i], in, g.off, pe))
				} else {
					orc.Mixed(r, out.A)
					ev.ExternalProductAssign(sel[i], in, g.off, out)
				}
				digits[i] = out.A
				for j := range out.A {
					if out.A[j] != -out.B[j] {
						c.Fail(name, "row %d: mask part and body part give different digits at %d", i, j)
					}
				}
			}
			for j := 0; j < n; j++ {
				g.check(c, name+", mask", keep.A[j], func(i int) int32 { return int32(digits[i][j]) })
				g.check(c, name+", body", keep.B[j], func(i int) int32 { return int32(digits[g.l+i][j]) })
				c.SeenHash(uint64(p.Level)<<33 ^ uint64(impl+1)<<40 ^ uint64(keep.A[j]))
				c.SeenHash(uint64(p.Level)<<33 ^ uint64(impl+3)<<40 ^ uint64(keep.B[j]))
			}
			if !orc.Eq(in.A, keep.A) || !orc.Eq(in.B, keep.B) {
				c.Fail(name, "the input changed")
			}
		}
	}
	c.Count("external_products_read", int64(2*2*g.l))
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
