// C17: blind rotation rotates the table by the encrypted phase.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"

	"verif/orc"
	"verif/vk"
)

type T = params.Torus

func main() {
	vk.Main(vk.Spec{
		Prop: "C17",
		Rule: "one evaluation = one blind rotation whose phase is compared, at every coefficient, with the table's phase rotated backwards by the exact mod-switched phase of the input; signature (profile, implementation, key kind, key noise, table kind, shape of the mask, rotation index)",
		Assumptions: []string{
			"error bound 8 standard deviations of the textbook noise formula of a blind rotation, with an allowance for double precision and for the one-bit rounding of negations; the root mean square may exceed the formula by at most a third",
			"masks avoid exact ties of the rounding to 2N points, where either neighbour is right",
		},
		Shards:   func(string) int { return len(orc.Profiles) },
		MinEvals: 500,
		Run:      run,
	})
}

type keyset struct {
	name   string
	s0, s1 []T
	bsk    []*trgsw.TRGSWLv1FFT
	alpha  float64 // what survives the torus resolution
	hw0    int
}

func bsk(c *vk.C, s0, s1 []T, alpha float64) []*trgsw.TRGSWLv1FFT {
	out := make([]*trgsw.TRGSWLv1FFT, len(s0))
	w := runtime.GOMAXPROCS(0)
	pes := make([]*poly.Evaluator, w)
	for i := range pes {
		pes[i] = poly.NewEvaluator(params.GetTRGSWLv1().N)
	}
	c.Par("bootstrapping key", w, len(s0), func(k, i int) {
		out[i] = trgsw.NewTRGSWLv1FFT(trgsw.NewTRGSWLv1().EncryptTorus(s0[i], alpha, s1, pes[k]), pes[k])
	})
	return out
}

func run(c *vk.C) {
	p := orc.Profiles[c.Shard]
	p.Use()
	r := c.Rand("c17")
	n := params.GetTRGSWLv1().N
	do := cloudkey.NewCloudKeyNoKSK().DecompositionOffset
	ev := evaluator.NewEvaluator(n)
	ev2 := ev.ShallowCopy()
	pe := poly.NewEvaluator(n)
	kinds := []string{"random", "random exact", "all ones", "all zeros", "one bit", "random"}
	if !c.Quick() {
		for i := 0; i < 12; i++ {
			kinds = append(kinds, "random", "random exact", "one bit")
		}
	}
	for ki, kind := range kinds {
		sk := key.NewSecretKey()
		ks := &keyset{name: kind, s0: sk.KeyLv0, s1: sk.KeyLv1, alpha: orc.Alpha1()}
		alpha := params.BSKAlpha()
		switch kind {
		case "all ones":
			for i := range ks.s0 {
				ks.s0[i] = 1
			}
		case "all zeros":
			for i := range ks.s0 {
				ks.s0[i] = 0
			}
		case "one bit":
			for i := range ks.s0 {
				ks.s0[i] = 0
			}
			ks.s0[[]int{0, len(ks.s0) - 1, r.Intn(len(ks.s0))}[ki%3]] = 1
		case "random exact":
			alpha, ks.alpha = 0, 0
		}
		for _, v := range ks.s0 {
			ks.hw0 += int(v)
		}
		ks.bsk = bsk(c, ks.s0, ks.s1, alpha)
		m := &mon{c, p, ks, n}
		count := c.Pick(10, 60)
		if n == 2048 {
			count = c.Pick(6, 40)
		}
		type job struct {
			ct   *tlwe.TLWELv0
			mask string
		}
		var batch []job
		for i := 0; i < count; i++ {
			ct, mask := input(r, ks.s0, n)
			batch = append(batch, job{ct, mask})
		}
		nt := c.Pick(2, 4)
		for ti := 0; ti < nt; ti++ {
			tv, tvk := table(r, p, ks.s1, pe, (nt*ki+ti+c.Shard)%9)
			tvPhase := orc.PhaseRing(tv, ks.s1)
			htv := orc.HashT(tv.A) ^ 3*orc.HashT(tv.B)
			c.Guard(fmt.Sprintf("profile=%s key=%s table=%s", p.Name, ks.name, tvk), func() {
				var cts []*tlwe.TLWELv0
				for _, j := range batch {
					cts = append(cts, j.ct)
				}
				if ti == 0 { // lists of no, one and two items, one item several times
					for l := 0; l < 5; l++ {
						var few []*tlwe.TLWELv0
						var who []job
						for i := 0; i < l; i++ {
							j := batch[r.Intn(len(batch))]
							if l > 2 && i > 0 && r.Intn(2) == 0 {
								j = who[0]
							}
							few, who = append(few, j.ct), append(who, j)
						}
						got := trgsw.BatchBlindRotate(few, tv, ks.bsk, do)
						if len(got) != l {
							c.Fail("profile="+p.Name, "batch of %d gave %d results", l, len(got))
						}
						for i, j := range who {
							m.judge("trgsw.BatchBlindRotate", tvk, j.mask, j.ct, tvPhase, got[i])
							for k := 0; k < i; k++ {
								if got[k] == got[i] || &got[k].A[0] == &got[i].A[0] || &got[k].B[0] == &got[i].B[0] {
									c.Fail("profile="+p.Name, "results %d and %d of a batch of %d are one", k, i, l)
								}
							}
						}
					}
				}
				bout := trgsw.BatchBlindRotate(cts, tv, ks.bsk, do)
				if len(bout) != len(cts) {
					c.Fail("profile="+p.Name, "batch of %d gave %d results", len(cts), len(bout))
				}
				for i, j := range batch {
					h := orc.HashT(j.ct.P)
					m.judge("trgsw.BatchBlindRotate", tvk, j.mask, j.ct, tvPhase, bout[i])
					e := ev
					if r.Intn(2) == 0 {
						e = ev2
					}
					out := trlwe.NewTRLWELv1()
					orc.Mixed(r, out.A)
					orc.Mixed(r, out.B)
					e.BlindRotateAssign(j.ct, tv, ks.bsk, do, out)
					m.judge("evaluator.BlindRotateAssign", tvk, j.mask, j.ct, tvPhase, out)
					if i%3 == 0 {
						m.judge("trgsw.BlindRotate", tvk, j.mask, j.ct, tvPhase, trgsw.BlindRotate(j.ct, tv, ks.bsk, do, pe))
					}
					if orc.HashT(j.ct.P) != h {
						c.Fail("profile="+p.Name, "blind rotation changed its input")
					}
				}
			})
			if orc.HashT(tv.A)^3*orc.HashT(tv.B) != htv {
				c.Fail("profile="+p.Name, "blind rotation changed the table")
			}
		}
	}
	for _, im := range impls {
		for _, e := range []string{"noisy", "exact"} {
			rms, cnt := c.RMS(fmt.Sprintf("%s %s %s (in predicted deviations)", p.Name, im, e))
			if cnt > 4000 && rms > 1.34 {
				c.Fail("profile="+p.Name, "%s with %s key: root mean square is %g times the predicted deviation", im, e, rms)
			}
		}
	}
}

var impls = []string{"trgsw.BatchBlindRotate", "evaluator.BlindRotateAssign", "trgsw.BlindRotate"}

// table makes tables of many kinds, also ones with a mask.
func table(r *rand.Rand, p orc.Profile, s1 []T, pe *poly.Evaluator, kind int) (*trlwe.TRLWELv1, string) {
	tv := trlwe.NewTRLWELv1()
	n := len(tv.A)
	switch kind {
	case 0:
		orc.Fill(r, tv.B)
		return tv, "random"
	case 1:
		m := p.M
		if m > 32 {
			m = 32
		}
		l := lut.NewGenerator(m).GenLookUpTable(func(x int) int { return x })
		copy(tv.A, l.Poly.A)
		copy(tv.B, l.Poly.B)
		return tv, "identity lookup table"
	case 2:
		f := make([]float64, n)
		for i := range f {
			f[i] = r.Float64() - 0.5
		}
		return tv.EncryptF64(f, params.GetTRLWELv1().ALPHA, s1, pe), "encrypted table"
	case 3:
		tv.B[r.Intn(n)] = 0x40000000
		return tv, "single coefficient"
	case 5: // any structure, with a mask
		orc.Mixed(r, tv.A)
		orc.Mixed(r, tv.B)
		return tv, "structured"
	case 6:
		orc.Mixed(r, tv.A)
		return tv, "mask only"
	case 7:
		return tv, "empty"
	case 8:
		v := []T{0x80000000, 0xffffffff, 1, 0x7fffffff}[r.Intn(4)]
		for i := range tv.B {
			tv.B[i] = v
		}
		return tv, "extreme constant"
	}
	for i := range tv.B {
		tv.B[i] = 1 << 29
	}
	return tv, "constant"
}

// input makes ciphertexts of many shapes without ties of the rounding.
func input(r *rand.Rand, s0 []T, n int) (*tlwe.TLWELv0, string) {
	step := T(uint64(1<<32) / uint64(2*n))
	ct := tlwe.NewTLWELv0()
	k := len(s0)
	var name string
	switch r.Intn(12) {
	case 6:
		orc.Zero(ct.P)
		name = "nothing"
	case 7:
		for i := range ct.P {
			ct.P[i] = 0x80000000
		}
		name = "half turns only"
	case 8:
		orc.Mixed(r, ct.P)
		name = "structured"
	case 0: // every coefficient rounds up to a full turn
		for i := range ct.P {
			ct.P[i] = 0xffffffff - T(r.Intn(int(step/2-1)))
		}
		name = "rounds to a full turn"
	case 1: // some do
		orc.Fill(r, ct.P)
		for i := range ct.P {
			if r.Intn(4) == 0 {
				ct.P[i] = 0xffffffff
			}
		}
		name = "some round to a full turn"
	case 2:
		name = "zero mask"
		ct.P[k] = T(r.Uint32())
	case 3:
		for i := range ct.P {
			ct.P[i] = orc.Edges[r.Intn(len(orc.Edges))]
		}
		name = "edge values"
	case 4: // just below and just above the decision points
		for i := range ct.P {
			ct.P[i] = T(r.Intn(2*n))*step + step/2 - 1 + T(r.Intn(2))*2
		}
		name = "next to the decision points"
	case 5:
		ct = orc.GridCT(r, s0, n, T(r.Uint32()))
		name = "grid"
	default:
		orc.Fill(r, ct.P)
		name = "uniform"
	}
	for i := range ct.P {
		if (ct.P[i]+step/2)%step == 0 { // an exact tie
			ct.P[i]++
		}
	}
	return ct, name
}

type mon struct {
	c  *vk.C
	p  orc.Profile
	ks *keyset
	n  int
}

func (m *mon) judge(op, table, mask string, ct *tlwe.TLWELv0, tvPhase []T, got *trlwe.TRLWELv1) {
	idx := orc.RotPhase(ct, m.ks.s0, m.n)
	want := orc.Rot(tvPhase, -idx)
	ph := orc.PhaseRing(got, m.ks.s1)
	a, b := orc.ExtSD(0, m.ks.alpha), orc.ExtSD(1, m.ks.alpha)
	hw, n0 := float64(m.ks.hw0), float64(len(m.ks.s0))
	sd := math.Sqrt((n0-hw)*a*a + hw*b*b)
	// a negated coefficient is one bit off; the key multiplies mask coefficients
	neg := n0 * math.Sqrt(float64(m.n)/2) / math.Exp2(32)
	bound := 8*sd + 3*neg
	e := "noisy"
	if m.ks.alpha == 0 {
		e = "exact"
	}
	key := fmt.Sprintf("%s %s %s (in predicted deviations)", m.p.Name, op, e)
	for i := range ph {
		d := orc.Err(ph[i], want[i])
		if math.Abs(d) > bound {
			m.c.Fail(fmt.Sprintf("%s profile=%s key=%s table=%s mask=%s", op, m.p.Name, m.ks.name, table, mask),
				"rotation by %d of %d: coefficient %d has phase %#x, want %#x: error %g, bound %g", idx, 2*m.n, i, uint32(ph[i]), uint32(want[i]), d, bound)
		}
		if i%16 == 0 {
			m.c.Noise(key, d/sd)
		}
	}
	m.c.Seen("%s|%s|%s|%s|%s|%d", m.p.Name, op, m.ks.name, table, mask, idx)
	m.c.Count("coefficients_checked", int64(len(ph)))
}
