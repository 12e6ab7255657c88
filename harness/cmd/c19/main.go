// C19: key switching preserves the plaintext.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"

	"verif/orc"
	"verif/vk"
)

type T = params.Torus

func main() {
	vk.Main(vk.Spec{
		Prop: "C19",
		Rule: "one evaluation = one key switch whose result's phase under the small key is compared with the source phase under the large key plus the exact rounding of each mask coefficient to the nearest representable value; signature (profile, implementation, switching key kind, mask shape, content)",
		Assumptions: []string{
			"with noise-free switching keys the comparison is exact; with noisy ones the allowance is 7.5 standard deviations of the sum of the entries used",
			"mask coefficients avoid exact ties of the rounding",
		},
		Shards:   func(string) int { return len(groups) },
		MinEvals: 500,
		Run:      run,
	})
}

// profiles per process: the switching keys of the last ones take gigabytes
var groups = [][]string{{"128", "uint2", "80"}, {"110", "uint1", "uint3"}, {"uint4", "uint5"}, {"uint6"}, {"uint7"}, {"uint8"}}

func run(c *vk.C) {
	for _, name := range groups[c.Shard] {
		profile(c, orc.ByName(name))
		runtime.GC()
	}
}

// xs is a fast generator for the masks of harness-made switching keys.
type xs uint64

func (x *xs) next() uint64 {
	*x ^= *x << 13
	*x ^= *x >> 7
	*x ^= *x << 17
	return uint64(*x)
}

// makeKSK builds a switching key from its definition, independently of the
// library's key generation.
func makeKSK(c *vk.C, r *rand.Rand, s0, s1 []T, alpha float64) []*tlwe.TLWELv0 {
	g := params.GetTRGSWLv1()
	base := 1 << g.BASEBIT
	out := make([]*tlwe.TLWELv0, base*g.IKS_T*g.N)
	seeds := make([]int64, g.N)
	for i := range seeds {
		seeds[i] = r.Int63() | 1
	}
	n0 := len(s0)
	c.Par("switching key", 8, g.N, func(_, i int) {
		x := xs(seeds[i])
		gr := rand.New(rand.NewSource(seeds[i]))
		flat := make([]T, base*g.IKS_T*(n0+1))
		for j := 0; j < g.IKS_T; j++ {
			for k := 0; k < base; k++ {
				e := flat[:n0+1]
				flat = flat[n0+1:]
				for q := 0; q < n0; q++ {
					e[q] = T(x.next() >> 20)
				}
				var acc T
				for q := 0; q < n0; q++ {
					acc += e[q] * s0[q]
				}
				acc += T(k) * s1[i] << (32 - (j+1)*g.BASEBIT)
				if alpha > 0 {
					acc += T(int32(math.Round(gr.NormFloat64() * alpha * math.Exp2(32))))
				}
				e[n0] = acc
				out[base*g.IKS_T*i+base*j+k] = &tlwe.TLWELv0{P: e}
			}
		}
	})
	return out
}

func profile(c *vk.C, p orc.Profile) {
	p.Use()
	r := c.Rand("c19 %s", p.Name)
	g := params.GetTRGSWLv1()
	big := (1<<g.BASEBIT)*g.IKS_T*g.N*params.GetTLWELv0().N > 1<<28
	type kind struct {
		name  string
		alpha float64
	}
	kinds := []kind{{"exact random", 0}, {"exact all ones", 0}, {"noisy random", params.KSKAlpha()}, {"exact one bit", 0}, {"exact zeros", 0}, {"generated", params.KSKAlpha()}}
	if big {
		kinds = kinds[:2]
		if !c.Quick() {
			kinds = append(kinds, kind{"noisy random", params.KSKAlpha()})
		}
	}
	for _, k := range kinds {
		sk := key.NewSecretKey()
		switch k.name {
		case "exact all ones":
			for i := range sk.KeyLv1 {
				sk.KeyLv1[i] = 1
			}
			for i := range sk.KeyLv0 {
				sk.KeyLv0[i] = 1
			}
		case "exact one bit":
			for i := range sk.KeyLv1 {
				sk.KeyLv1[i] = 0
			}
			sk.KeyLv1[r.Intn(len(sk.KeyLv1))] = 1
		case "exact zeros":
			for i := range sk.KeyLv1 {
				sk.KeyLv1[i] = 0
			}
		}
		var ksk []*tlwe.TLWELv0
		if k.name == "generated" {
			if c.Quick() && g.N*(1<<g.BASEBIT) > 1<<16 {
				continue
			}
			ksk = cloudkey.NewCloudKey(sk).KeySwitchingKey
		} else {
			ksk = makeKSK(c, r, sk.KeyLv0, sk.KeyLv1, k.alpha)
		}
		type shot struct {
			src  *tlwe.TLWELv1
			name string
		}
		var shots []shot
		cnt := c.Pick(90, 900)
		for i := 0; i < cnt; i++ {
			s, nm := source(r, i)
			shots = append(shots, shot{s, nm})
		}
		before := hashKSK(ksk)
		c.Par(fmt.Sprintf("profile=%s key=%s", p.Name, k.name), 8, len(shots), func(_, i int) {
			judge(c, p, k.name, k.alpha, sk, ksk, shots[i].src, shots[i].name, i)
		})
		if hashKSK(ksk) != before {
			c.Fail("profile="+p.Name, "key switching changed the switching key")
		}
		ksk = nil
		runtime.GC()
	}
}

// hashKSK samples the switching key (C08 watches all of it).
func hashKSK(ksk []*tlwe.TLWELv0) uint64 {
	var h uint64
	st := len(ksk)/4096 + 1
	for i := 0; i < len(ksk); i += st {
		h = h*1099511628211 + orc.HashT(ksk[i].P)
	}
	return h
}

func source(r *rand.Rand, i int) (*tlwe.TLWELv1, string) {
	g := params.GetTRGSWLv1()
	step := T(1) << (32 - g.BASEBIT*g.IKS_T)
	s := tlwe.NewTLWELv1()
	n := g.N
	name := "uniform"
	switch i % 15 {
	case 0:
		name = "zero mask"
	case 1:
		for q := 0; q < n; q++ {
			s.P[q] = 0xffffffff
		}
		name = "all largest"
	case 2: // everything rounds up to a full turn
		for q := 0; q < n; q++ {
			s.P[q] = 0xffffffff - T(r.Intn(int(step/2)))
		}
		name = "rounds to a full turn"
	case 3: // one digit at one place
		q := r.Intn(n)
		j, k := r.Intn(g.IKS_T), 1+r.Intn((1<<g.BASEBIT)-1)
		s.P[q] = T(k) << (32 - (j+1)*g.BASEBIT)
		name = fmt.Sprintf("single digit level %d value %d", j, k)
	case 4: // the first and last coefficients, every digit the largest
		s.P[0], s.P[n-1] = -step, -step
		name = "ends"
	case 5:
		for q := 0; q < n; q++ {
			s.P[q] = orc.Edges[r.Intn(len(orc.Edges))]
		}
		name = "edge values"
	case 6: // just around the decision points
		for q := 0; q < n; q++ {
			s.P[q] = T(r.Uint32())/step*step + step/2 - 1 + 2*T(r.Intn(2))
		}
		name = "next to the decision points"
	case 7: // every coefficient the same digit in every level
		k := T(1 + r.Intn((1<<g.BASEBIT)-1))
		var v T
		for j := 0; j < g.IKS_T; j++ {
			v |= k << (32 - (j+1)*g.BASEBIT)
		}
		for q := 0; q < n; q++ {
			s.P[q] = v
		}
		name = fmt.Sprintf("digit %d everywhere", k)
	case 8: // below the resolution
		for q := 0; q < n; q++ {
			s.P[q] = T(r.Intn(int(step)))
		}
		name = "below the resolution"
	case 9: // sparse
		for q := 0; q < 5; q++ {
			s.P[r.Intn(n)] = T(r.Uint32())
		}
		name = "sparse"
	default:
		for q := 0; q < n; q++ {
			s.P[q] = T(r.Uint32())
		}
	}
	s.P[n] = T(r.Uint32())
	if r.Intn(4) == 0 {
		s.P[n] = orc.Edges[r.Intn(len(orc.Edges))]
	}
	for q := 0; q < n; q++ {
		if s.P[q]%step == step/2 { // an exact tie
			s.P[q]++
		}
	}
	return s, name
}

func judge(c *vk.C, p orc.Profile, kname string, alpha float64, sk *key.SecretKey, ksk []*tlwe.TLWELv0, src *tlwe.TLWELv1, mask string, i int) {
	g := params.GetTRGSWLv1()
	bits := g.BASEBIT * g.IKS_T
	step := uint64(1) << (32 - bits)
	want := src.P[g.N]
	used := 0.0
	for q := 0; q < g.N; q++ {
		near := T((uint64(src.P[q]) + step/2) / step * step)
		want -= near * sk.KeyLv1[q]
		for j := 0; j < g.IKS_T; j++ {
			if (near>>(32-(j+1)*g.BASEBIT))&(1<<g.BASEBIT-1) != 0 {
				used++
			}
		}
	}
	cn := fmt.Sprintf("profile=%s key=%s mask=%s", p.Name, kname, mask)
	h := orc.HashT(src.P)
	out := trgsw.IdentityKeySwitching(src, ksk)
	if len(out.P) != len(sk.KeyLv0)+1 {
		c.Fail(cn, "result has %d coefficients", len(out.P))
	}
	dirty := tlwe.NewTLWELv0()
	for q := range dirty.P {
		dirty.P[q] = T(uint32(i*7919+q*104729)) | 1
		switch i % 8 { // also clear outputs, and nearly clear ones
		case 1:
			dirty.P[q] = 0
		case 3:
			dirty.P[q] = T(q/(len(dirty.P)-1)) * 0x80000000
		case 5:
			dirty.P[q] = 0x80000000
		case 7:
			dirty.P[q] = src.P[q%len(src.P)]
		}
	}
	trgsw.IdentityKeySwitchingAssign(src, ksk, dirty)
	if orc.HashT(src.P) != h {
		c.Fail(cn, "the source was changed")
	}
	if !orc.Eq(out.P, dirty.P) {
		c.Fail(cn, "the variant writing to an output differs: %s", orc.Diff(dirty.P, out.P))
	}
	ph := orc.Phase0(out, sk.KeyLv0)
	e := orc.Err(ph, want)
	sd := alpha * math.Sqrt(used)
	// noise is rounded to the torus grid entry by entry
	tol := 7.5*sd + math.Sqrt(used)*3*math.Exp2(-32)
	if alpha == 0 {
		tol = 0
	}
	if math.Abs(e) > tol {
		c.Fail(cn, "phase %#x, want %#x: error %g, allowed %g (%v entries used)", uint32(ph), uint32(want), e, tol, used)
	}
	if alpha > 0 && used > 1000 {
		c.Noise(p.Name+" "+kname+" (in predicted deviations)", e/sd)
	}
	// exact integer messages on the way: the distance to the source phase itself
	var src1 T = src.P[g.N]
	for q := 0; q < g.N; q++ {
		src1 -= src.P[q] * sk.KeyLv1[q]
	}
	c.Noise(p.Name+" distance to the source phase", orc.Err(ph, src1))
	c.Seen("%s|%s|%s|%x", p.Name, kname, mask, h)
	c.Count("key_switches", 2)
}
