// C18: sample extraction yields exactly the chosen coefficient.
package main

import (
	"fmt"

	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trlwe"

	"verif/orc"
	"verif/vk"
)

type T = params.Torus

func main() {
	vk.Main(vk.Spec{
		Prop:        "C18",
		Rule:        "one evaluation = one extraction at one index: every coefficient against the model and the phase against the exact ring phase; the signature is (profile, index, variant, ciphertext kind, key kind)",
		Assumptions: []string{"a negated mask coefficient may differ from the exact negation by one unit"},
		Shards:      func(string) int { return 8 },
		MinEvals:    5000,
		Run:         run,
	})
}

func run(c *vk.C) {
	for pi, p := range orc.Profiles {
		for part := 0; part < 4; part++ {
			if !c.Mine(4*pi + part) {
				continue
			}
			p.Use()
			n := params.GetTRLWELv1().N
			r := c.Rand("ext %s %d", p.Name, part)
			for rep := 0; rep < c.Pick(9, 27); rep++ {
				ct := trlwe.NewTRLWELv1()
				kind := (part + rep) % 9
				switch kind {
				case 0:
					orc.Mixed(r, ct.A)
					orc.Mixed(r, ct.B)
				case 1:
					for i := range ct.A {
						ct.A[i] = orc.Edges[r.Intn(len(orc.Edges))]
						ct.B[i] = orc.Edges[r.Intn(len(orc.Edges))]
					}
				case 2:
					for i := range ct.A {
						ct.A[i] = T(i+1) << 16
						ct.B[i] = T(i + 7)
					}
				case 3: // a trivial encryption
					orc.Mixed(r, ct.B)
				case 4: // one mask coefficient
					ct.A[[]int{0, n - 1, n / 2, r.Intn(n)}[r.Intn(4)]] = orc.Edges[r.Intn(len(orc.Edges))] | 1
					orc.Fill(r, ct.B)
				case 5: // constants
					a, b := orc.Edges[r.Intn(len(orc.Edges))], orc.Edges[r.Intn(len(orc.Edges))]
					for i := range ct.A {
						ct.A[i], ct.B[i] = a, b
					}
				case 6: // equal or opposite halves
					orc.Mixed(r, ct.A)
					for i := range ct.A {
						ct.B[i] = ct.A[i]
						if rep&1 == 1 {
							ct.B[i] = -ct.A[i]
						}
					}
				case 7: // nothing in the body
					orc.Fill(r, ct.A)
				case 8: // small values
					for i := range ct.A {
						ct.A[i], ct.B[i] = T(r.Intn(5))-2, T(r.Intn(5))-2
					}
				}
				keep := orc.CloneRing(ct)
				sk := make([]T, n)
				for i := range sk {
					switch (part + rep) % 4 {
					case 0, 1:
						sk[i] = T(r.Intn(2))
					case 2:
						sk[i] = 1
					case 3:
						if i == 1+rep {
							sk[i] = 1
						}
					}
				}
				ph := orc.PhaseRing(ct, sk)
				used := tlwe.NewTLWELv1()
				step := 1
				if c.Quick() {
					step = n / 256
				}
				for k0 := 0; k0 < n; k0 += step {
					k := k0 + r.Intn(step)
					if k0 == 0 {
						k = 0
					}
					if k0+step >= n {
						k = n - 1
					}
					orc.Mixed(r, used.P)
					trlwe.SampleExtractIndexAssign(ct, k, used)
					for v, got := range []*tlwe.TLWELv1{trlwe.SampleExtractIndex(ct, k), used} {
						name := fmt.Sprintf("profile=%s index=%d %s", p.Name, k, []string{"SampleExtractIndex", "SampleExtractIndexAssign"}[v])
						judge(c, name, got.P, keep.A, keep.B, k, sk, ph[k])
						c.Seen("%s|%d|%d|%d|%d", p.Name, k, v, kind, (part+rep)%4)
					}
				}
				if !orc.Eq(ct.A, keep.A) || !orc.Eq(ct.B, keep.B) {
					c.Fail("profile="+p.Name, "extraction changed the ring ciphertext")
				}
				// the level-0 variant: ring of the level-0 dimension
				n0 := params.GetTLWELv0().N
				if n0 != n && !vk.Panics(func() { trlwe.SampleExtractIndex2(ct, r.Intn(n)) }) {
					c.Fail("profile="+p.Name, "SampleExtractIndex2 accepted a ring of dimension %d for ciphertexts of dimension %d", n, n0)
				}
				c.Seen("%s|refusal", p.Name)
				small := &trlwe.TRLWELv1{A: make([]T, n0), B: make([]T, n0)}
				switch kind {
				case 3:
					orc.Mixed(r, small.B)
				case 7:
					orc.Fill(r, small.A)
				default:
					orc.Mixed(r, small.A)
					orc.Mixed(r, small.B)
				}
				s0 := make([]T, n0)
				for i := range s0 {
					s0[i] = T(r.Intn(2))
				}
				ph0 := orc.PhaseRing(small, s0)
				for q := 0; q < 40; q++ {
					k := r.Intn(n0)
					switch q {
					case 0:
						k = 0
					case 1:
						k = n0 - 1
					}
					got := trlwe.SampleExtractIndex2(small, k)
					judge(c, fmt.Sprintf("profile=%s index=%d SampleExtractIndex2", p.Name, k), got.P, small.A, small.B, k, s0, ph0[k])
					c.Seen("%s|%d|2", p.Name, k)
				}
			}
			c.Sample(fmt.Sprintf("profile=%s N=%d: indices 0, N-1 and one per stretch, all three variants", p.Name, n))
		}
	}
}

func judge(c *vk.C, name string, got, a, b []T, k int, sk []T, phase T) {
	n := len(a)
	if len(got) != n+1 {
		c.Fail(name, "result has %d coefficients, want %d", len(got), n+1)
	}
	slack := int64(0)
	for i := 0; i < n; i++ {
		if i <= k {
			if got[i] != a[k-i] {
				c.Fail(name, "mask coefficient %d is %#x, want %#x", i, uint32(got[i]), uint32(a[k-i]))
			}
		} else {
			if orc.Dist(got[i], -a[n+k-i]) > 1 {
				c.Fail(name, "mask coefficient %d is %#x, want the negation of %#x", i, uint32(got[i]), uint32(a[n+k-i]))
			}
			slack += int64(sk[i])
		}
	}
	if got[n] != b[k] {
		c.Fail(name, "body is %#x, want %#x", uint32(got[n]), uint32(b[k]))
	}
	if d := orc.Dist(orc.Phase(got, sk), phase); d > slack {
		c.Fail(name, "phase is %d units from the coefficient's phase, allowed %d", d, slack)
	}
}
