// C16: the external product multiplies and the multiplexer selects.
package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"

	"verif/orc"
	"verif/vk"
)

type T = params.Torus

func main() {
	vk.Main(vk.Spec{
		Prop: "C16",
		Rule: "one evaluation = one external product or multiplexer call whose result's phase is compared at every coefficient with the plaintext product or the selected input's phase; signature (profile, implementation, operation, bit, key noise, shapes of the inputs, key)",
		Assumptions: []string{
			"error bound 8 standard deviations of the textbook noise formula plus an allowance for double precision rounding; with a noise-free encrypted bit the bound is the rounding of the decomposition alone",
			"the root mean square over the uniform inputs of a profile may exceed the formula by at most 30 percent",
		},
		Shards:   func(string) int { return len(orc.Profiles) },
		MinEvals: 2000,
		Run:      run,
	})
}

type bitCT struct {
	bit   int
	alpha float64
	g     *trgsw.TRGSWLv1FFT
	sk    []T
	name  string
}

func run(c *vk.C) {
	p := orc.Profiles[c.Shard]
	p.Use()
	r := c.Rand("c16")
	n := params.GetTRGSWLv1().N
	do := cloudkey.NewCloudKeyNoKSK().DecompositionOffset
	pe := poly.NewEvaluator(n)
	ev := evaluator.NewEvaluator(n)
	ev2 := ev.ShallowCopy()
	pe2 := pe.ShallowCopy()
	for kk := 0; kk < c.Pick(4, 40); kk++ {
		sk := key.NewSecretKey().KeyLv1
		switch kk {
		case 1: // extreme keys
			for i := range sk {
				sk[i] = 1
			}
		case 2:
			for i := range sk {
				sk[i] = 0
			}
			sk[r.Intn(n)] = 1
		}
		var bits []bitCT
		for _, bit := range []int{0, 1, -1, 2 + r.Intn(7), -2 - r.Intn(7)} {
			for _, a := range []float64{0, params.BSKAlpha()} {
				g := trgsw.NewTRGSWLv1().EncryptTorus(T(bit), a, sk, pe)
				ea := a
				if a != 0 {
					ea = orc.Alpha1()
				}
				bits = append(bits, bitCT{bit, ea, trgsw.NewTRGSWLv1FFT(g, pe), sk, fmt.Sprintf("bit %d noise %g key %d", bit, a, kk)})
			}
		}
		count := c.Pick(60, 600)
		if n == 2048 {
			count = c.Pick(30, 300)
		}
		for i := 0; i < count; i++ {
			b := bits[i%4]
			if i >= 8 && i%3 == 0 { // integers other than bits
				b = bits[4+i/3%(len(bits)-4)]
			}
			e, q := ev, pe
			if r.Intn(2) == 0 {
				e, q = ev2, pe2
			}
			x, xk := input(r, sk, pe)
			y, yk := input(r, sk, pe)
			if i < 8 { // the noise formula is checked on these
				x, xk = trlwe.NewTRLWELv1(), "uniform"
				orc.Fill(r, x.A)
				orc.Fill(r, x.B)
			}
			m := &mon{c, p, b, n}
			px, py := orc.PhaseRing(x, sk), orc.PhaseRing(y, sk)
			hx, hy := orc.HashT(x.A)^orc.HashT(x.B), orc.HashT(y.A)^orc.HashT(y.B)
			want := make([]T, n)
			for i := range want {
				want[i] = T(b.bit) * px[i]
			}
			c.Guard("profile="+p.Name+" "+b.name, func() {
				out := trlwe.NewTRLWELv1()
				orc.Mixed(r, out.A)
				orc.Mixed(r, out.B)
				e.ExternalProductAssign(b.g, x, do, out)
				m.judge("evaluator.ExternalProductAssign", xk, out, want)
				m.judge("trgsw.ExternalProductWithFFT", xk, trgsw.ExternalProductWithFFT(b.g, x, do, q), want)
				sel := make([]T, n)
				for i := range sel {
					sel[i] = px[i] + T(b.bit)*(py[i]-px[i])
				}
				orc.Mixed(r, out.A)
				e.CMuxAssign(b.g, x, y, do, out)
				m.judge("evaluator.CMuxAssign", xk+"/"+yk, out, sel)
				m.judge("trgsw.CMUX", xk+"/"+yk, trgsw.CMUX(x, y, b.g, do, q), sel)
				// the accumulator form used by blind rotation: output is the first input
				acc := orc.CloneRing(x)
				e.CMuxAssign(b.g, acc, y, do, acc)
				m.judge("evaluator.CMuxAssign in place", xk+"/"+yk, acc, sel)
				// both inputs the same
				e.CMuxAssign(b.g, x, x, do, out)
				m.judge("evaluator.CMuxAssign same inputs", xk, out, px)
				m.judge("trgsw.CMUX same inputs", xk, trgsw.CMUX(x, x, b.g, do, q), px)
			})
			if orc.HashT(x.A)^orc.HashT(x.B) != hx || orc.HashT(y.A)^orc.HashT(y.B) != hy {
				c.Fail("profile="+p.Name, "an input was changed")
			}
		}
	}
	for _, what := range []string{"bit 0 noisy", "bit 1 noisy", "bit 0 exact", "bit 1 exact"} {
		for _, im := range []string{"evaluator.ExternalProductAssign", "trgsw.ExternalProductWithFFT"} {
			rms, cnt := c.RMS(fmt.Sprintf("%s %s %s (in predicted deviations)", p.Name, im, what))
			if cnt > 5000 && rms > 1.3 {
				c.Fail("profile="+p.Name, "%s %s: root mean square is %g times the predicted deviation", im, what, rms)
			}
		}
	}
}

func input(r *rand.Rand, sk []T, pe *poly.Evaluator) (*trlwe.TRLWELv1, string) {
	if r.Intn(4) == 0 {
		f := make([]float64, len(sk))
		for i := range f {
			f[i] = r.Float64() - 0.5
		}
		return trlwe.NewTRLWELv1().EncryptF64(f, params.GetTRLWELv1().ALPHA, sk, pe), "encryption"
	}
	return orc.RandRing(r)
}

type mon struct {
	c *vk.C
	p orc.Profile
	b bitCT
	n int
}

func (m *mon) judge(op, kind string, got *trlwe.TRLWELv1, want []T) {
	ph := orc.PhaseRing(got, m.b.sk)
	sd := orc.ExtSD(m.b.bit, m.b.alpha)
	// constant inputs repeat one rounding error over the whole key
	g := params.GetTRGSWLv1()
	worst := math.Pow(float64(g.BG), -float64(g.L)) / 2
	var hw float64
	for _, s := range m.b.sk {
		hw += float64(s)
	}
	size := math.Abs(float64(m.b.bit))
	det := size * worst * (1 + hw)
	row := math.Sqrt(2*float64(g.L)*float64(m.n)) * float64(g.BG) / 2 * m.b.alpha
	fft := orc.FFTErr()
	bound := 8*row + det + 4*orc.FFTWorst()
	if kind == "uniform" || kind == "encryption" {
		bound = 8*sd*math.Max(1, size) + 4*fft
		if hw > float64(m.n)*0.6 { // extreme key
			bound *= 1.5
		}
	}
	for i := range ph {
		if e := math.Abs(orc.Err(ph[i], want[i])); e > bound {
			m.c.Fail(fmt.Sprintf("%s profile=%s %s input=%s", op, m.p.Name, m.b.name, kind),
				"coefficient %d: phase error %g, bound %g", i, e, bound)
		}
		if kind == "uniform" && hw < float64(m.n)*0.6 && hw > float64(m.n)*0.4 {
			noisy := "exact"
			if m.b.alpha != 0 {
				noisy = "noisy"
			}
			if i%8 == 0 {
				m.c.Noise(fmt.Sprintf("%s %s bit %d %s (in predicted deviations)", m.p.Name, op, m.b.bit, noisy), orc.Err(ph[i], want[i])/sd)
			}
		}
	}
	m.c.Seen("%s|%s|%s|%s", m.p.Name, op, m.b.name, kind)
	m.c.Count("coefficients_checked", int64(len(ph)))
}
