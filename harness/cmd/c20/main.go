// C20: generated keys are well formed in every entry.
package main

import (
	"fmt"
	"math"
	"runtime"
	"strings"
	"sync"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"

	"verif/orc"
	"verif/vk"
)

type T = params.Torus

func main() {
	vk.Main(vk.Spec{
		Prop: "C20",
		Rule: "one evaluation = one entry of a generated key (a key-switching entry, or one gadget row of a bootstrapping entry at all its coefficients) decrypted and compared with the value it must encrypt, or one secret key; signature (profile, key, kind, entry index)",
		Assumptions: []string{
			"noise of an entry is at most 7.5 standard deviations of the profile's noise, its root mean square over a key within 5 percent and its mean within 6 standard errors plus 1.5 units of 2^-32",
			"bias, pairwise and serial correlation of secret key bits are bounded at 6.5 standard errors",
		},
		Shards:   func(string) int { return len(groups) },
		MinEvals: 100000,
		Run:      run,
	})
}

var groups = [][]string{{"128", "110", "uint1"}, {"80", "uint2", "uint3", "uint4"}, {"uint5", "uint6"}, {"uint7", "uint8"}}

func run(c *vk.C) {
	for _, name := range groups[c.Shard] {
		p := orc.ByName(name)
		p.Use()
		secrets(c, p)
		cloud(c, p)
		runtime.GC()
	}
}

// secrets checks many secret keys for shape and bias.
func secrets(c *vk.C, p orc.Profile) {
	n0, n1 := params.GetTLWELv0().N, params.GetTLWELv1().N
	m := c.Pick(1500, 20000)
	tot := n0 + n1
	ones := make([]int, tot)
	agree := make([]int, 4) // lv0[i]=lv1[i], previous key, lag 1, lag 2
	pairs := make([]int, 4)
	var prev []T
	for k := 0; k < m; k++ {
		sk := key.NewSecretKey()
		if len(sk.KeyLv0) != n0 || len(sk.KeyLv1) != n1 {
			c.Fail("profile="+p.Name, "secret key has %d and %d entries, want %d and %d", len(sk.KeyLv0), len(sk.KeyLv1), n0, n1)
		}
		all := append(append([]T(nil), sk.KeyLv0...), sk.KeyLv1...)
		for i, v := range all {
			if v > 1 {
				c.Fail("profile="+p.Name, "secret key entry %d is %d", i, v)
			}
			ones[i] += int(v)
		}
		same := func(w int, a, b []T) {
			for i := range a {
				if i < len(b) {
					pairs[w]++
					if a[i] == b[i] {
						agree[w]++
					}
				}
			}
		}
		same(0, sk.KeyLv0, sk.KeyLv1)
		if prev != nil {
			same(1, prev, all)
		}
		same(2, all, all[1:])
		same(3, all, all[2:])
		prev = all
		c.Seen("%s|secret|%x", p.Name, orc.HashT(all))
	}
	total := 0
	for i, o := range ones {
		total += o
		if z := (float64(o) - float64(m)/2) / math.Sqrt(float64(m)/4); math.Abs(z) > 6.5 {
			c.Fail("profile="+p.Name, "secret key entry %d is 1 in %d of %d keys (%.1f standard errors)", i, o, m, z)
		}
	}
	all := float64(m * tot)
	if z := (float64(total) - all/2) / math.Sqrt(all/4); math.Abs(z) > 6.5 {
		c.Fail("profile="+p.Name, "%d of %d secret key bits are 1 (%.1f standard errors)", total, m*tot, z)
	}
	for w, nm := range []string{"the two secret keys", "successive secret keys", "neighbouring key bits", "key bits two apart"} {
		f := float64(pairs[w])
		if z := (float64(agree[w]) - f/2) / math.Sqrt(f/4); math.Abs(z) > 6.5 {
			c.Fail("profile="+p.Name, "%s agree in %d of %d bits (%.1f standard errors)", nm, agree[w], pairs[w], z)
		}
	}
}

func cloud(c *vk.C, p orc.Profile) {
	r := c.Rand("c20 %s", p.Name)
	big := params.GetTRGSWLv1().N*(1<<params.GetTRGSWLv1().BASEBIT) > 1<<16
	kinds := []string{"random", "random, one processor", "all ones", "all zeros", "sparse", "two generated at the same time"}
	if big {
		kinds = []string{"random"}
	} else if !c.Quick() {
		kinds = append(kinds, "random", "random", "random, three processors", "random", "two generated at the same time")
	}
	for _, kind := range kinds {
		sk := key.NewSecretKey()
		switch kind {
		case "all ones":
			for i := range sk.KeyLv0 {
				sk.KeyLv0[i] = 1
			}
			for i := range sk.KeyLv1 {
				sk.KeyLv1[i] = 1
			}
		case "all zeros":
			for i := range sk.KeyLv0 {
				sk.KeyLv0[i] = 0
			}
			for i := range sk.KeyLv1 {
				sk.KeyLv1[i] = 0
			}
		case "sparse":
			for i := range sk.KeyLv0 {
				sk.KeyLv0[i] = 0
			}
			for i := range sk.KeyLv1 {
				sk.KeyLv1[i] = 0
			}
			sk.KeyLv0[0], sk.KeyLv1[0] = 1, 1
			sk.KeyLv0[len(sk.KeyLv0)-1], sk.KeyLv1[len(sk.KeyLv1)-1] = 1, 1
			sk.KeyLv0[r.Intn(len(sk.KeyLv0))], sk.KeyLv1[r.Intn(len(sk.KeyLv1))] = 1, 1
		}
		h0, h1 := orc.HashT(sk.KeyLv0), orc.HashT(sk.KeyLv1)
		old := runtime.GOMAXPROCS(0)
		switch kind {
		case "random, one processor":
			runtime.GOMAXPROCS(1)
		case "random, three processors":
			runtime.GOMAXPROCS(3)
		case "sparse":
			runtime.GOMAXPROCS(40)
		}
		cn := fmt.Sprintf("profile=%s key=%s", p.Name, kind)
		var ck, ck2 *cloudkey.CloudKey
		var sk2 *key.SecretKey
		c.Guard(cn, func() {
			if kind == "two generated at the same time" {
				sk2 = key.NewSecretKey()
				var wg sync.WaitGroup
				wg.Add(1)
				go func() {
					defer wg.Done()
					ck2 = cloudkey.NewCloudKey(sk2)
				}()
				ck = cloudkey.NewCloudKey(sk)
				wg.Wait()
			} else {
				ck = cloudkey.NewCloudKey(sk)
			}
		})
		runtime.GOMAXPROCS(old)
		if orc.HashT(sk.KeyLv0) != h0 || orc.HashT(sk.KeyLv1) != h1 {
			c.Fail(cn, "generating the cloud key changed the secret key")
		}
		inspect(c, p, cn, sk, ck)
		if ck2 != nil {
			inspect(c, p, cn+" (second)", sk2, ck2)
		}
	}
	// the key without switching key shares test vector and offset
	nk := cloudkey.NewCloudKeyNoKSK()
	common(c, p, "profile="+p.Name+" NewCloudKeyNoKSK", nk)
	dims(c, p, "profile="+p.Name+" NewCloudKeyNoKSK", nk)
}

func common(c *vk.C, p orc.Profile, cn string, ck *cloudkey.CloudKey) {
	g := params.GetTRGSWLv1()
	tv := ck.BlindRotateTestvec
	if tv == nil || len(tv.A) != g.N || len(tv.B) != g.N {
		c.Fail(cn, "test vector has the wrong dimension")
	}
	for i := range tv.A {
		if tv.A[i] != 0 || orc.Dist(tv.B[i], 1<<29) > 1 {
			c.Fail(cn, "test vector coefficient %d is (%#x, %#x), want (0, 1/8)", i, uint32(tv.A[i]), uint32(tv.B[i]))
		}
	}
	var off T
	for i := 0; i < g.L; i++ {
		off += T(uint64(g.BG/2) << (32 - (i+1)*int(g.BGBIT)))
	}
	if rest := 32 - g.L*int(g.BGBIT); rest > 0 {
		off += T(1) << (rest - 1)
	}
	if d := orc.Dist(off, ck.DecompositionOffset); d > 1 {
		c.Fail(cn, "decomposition offset is %#x, want %#x", uint32(ck.DecompositionOffset), uint32(off))
	}
	c.Seen("%s|common", cn)
}

func dims(c *vk.C, p orc.Profile, cn string, ck *cloudkey.CloudKey) {
	g := params.GetTRGSWLv1()
	n0 := params.GetTLWELv0().N
	if want := (1 << g.BASEBIT) * g.IKS_T * g.N; len(ck.KeySwitchingKey) != want {
		c.Fail(cn, "switching key has %d entries, want %d", len(ck.KeySwitchingKey), want)
	}
	if len(ck.BootstrappingKey) != n0 {
		c.Fail(cn, "bootstrapping key has %d entries, want %d", len(ck.BootstrappingKey), n0)
	}
	for i, e := range ck.KeySwitchingKey {
		if e == nil || len(e.P) != n0+1 {
			c.Fail(cn, "switching key entry %d is missing or has the wrong dimension", i)
		}
	}
	for i, e := range ck.BootstrappingKey {
		if e == nil || len(e.TRLWEFFT) != 2*g.L {
			c.Fail(cn, "bootstrapping key entry %d is missing or has the wrong number of rows", i)
		}
		for _, row := range e.TRLWEFFT {
			if len(row.A.Coeffs) != g.N || len(row.B.Coeffs) != g.N {
				c.Fail(cn, "bootstrapping key entry %d has a row of the wrong dimension", i)
			}
		}
	}
}

type moments struct {
	sync.Mutex
	n       float64
	sum, sq float64
}

func (m *moments) add(n, s, q float64) {
	m.Lock()
	m.n += n
	m.sum += s
	m.sq += q
	m.Unlock()
}

func (m *moments) judge(c *vk.C, cn, what string, sd float64) {
	if m.n == 0 {
		return
	}
	mean, rms := m.sum/m.n, math.Sqrt(m.sq/m.n)
	lsb := math.Exp2(-32)
	if strings.HasSuffix(cn, "key=random") && !strings.Contains(what, "row") {
		c.Note("%s %s: n=%.0f mean=%.3g rms=%.4g requested=%.4g", cn, what, m.n, mean, rms, sd)
	}
	if math.Abs(mean) > 6*sd/math.Sqrt(m.n)+1.5*lsb {
		c.Fail(cn, "%s: mean noise is %g over %.0f values (standard deviation %g)", what, mean, m.n, sd)
	}
	tol := 0.05 + 6/math.Sqrt(2*m.n)
	if sd >= 4*lsb && (rms < sd*(1-tol) || rms > sd*(1+tol)) {
		c.Fail(cn, "%s: noise has root mean square %g over %.0f values, requested %g", what, rms, m.n, sd)
	}
}

func inspect(c *vk.C, p orc.Profile, cn string, sk *key.SecretKey, ck *cloudkey.CloudKey) {
	g := params.GetTRGSWLv1()
	common(c, p, cn, ck)
	dims(c, p, cn, ck)
	base := 1 << g.BASEBIT
	a0, lsb := params.KSKAlpha(), math.Exp2(-32)
	var km moments
	var mu sync.Mutex
	masks := make(map[uint64]int, len(ck.KeySwitchingKey))
	shared := newStretches(len(ck.KeySwitchingKey) * len(sk.KeyLv0))
	byLevel, byDigit, byBit := make([]moments, g.IKS_T), make([]moments, base), make([]moments, 2)
	n0 := len(sk.KeyLv0)
	c.Par(cn, 8, g.N, func(_, i int) {
		var n, s, q float64
		hs := make([]uint64, 0, g.IKS_T*base)
		for j := 0; j < g.IKS_T; j++ {
			for k := 0; k < base; k++ {
				idx := base*g.IKS_T*i + base*j + k
				want := T(k) * sk.KeyLv1[i] << (32 - (j+1)*g.BASEBIT)
				e := orc.Err(orc.Phase0(ck.KeySwitchingKey[idx], sk.KeyLv0), want)
				if math.Abs(e) > 7.5*a0+3*lsb {
					c.Fail(cn, "switching key entry for key bit %d, level %d, digit %d: error %g, allowed %g", i, j, k, e, 7.5*a0+3*lsb)
				}
				if k != 0 {
					n++
					s += e
					q += e * e
					byLevel[j].add(1, e, e*e)
					byDigit[k].add(1, e, e*e)
					byBit[sk.KeyLv1[i]].add(1, e, e*e)
					if o, at, found := shared.add(ck.KeySwitchingKey[idx].P[:n0], idx); found {
						c.Fail(cn, "switching key entries %d and %d share a stretch of their masks (around place %d)", o, idx, at)
					}
				}
				h := orc.HashT(ck.KeySwitchingKey[idx].P[:n0])
				c.SeenHash(h + uint64(idx))
				if k == 0 { // never used; may be left empty
					h = 0
				}
				hs = append(hs, h)
			}
		}
		km.add(n, s, q)
		mu.Lock()
		defer mu.Unlock()
		for x, h := range hs {
			idx := base*g.IKS_T*i + x
			if h == 0 {
				continue
			}
			if o, dup := masks[h]; dup {
				c.Fail(cn, "switching key entries %d and %d (key bits %d and %d) share one mask", o, idx, o/(base*g.IKS_T), i)
			}
			masks[h] = idx
		}
	})
	km.judge(c, cn, "switching key", a0)
	for j := range byLevel {
		byLevel[j].judge(c, cn, fmt.Sprintf("switching key row of level %d", j), a0)
	}
	for k := 1; k < base; k++ {
		byDigit[k].judge(c, cn, fmt.Sprintf("switching key row of digit %d", k), a0)
	}
	for b := range byBit {
		byBit[b].judge(c, cn, fmt.Sprintf("switching key row of key bits %d", b), a0)
	}
	c.Count("mask_stretches_compared", shared.n())
	c.Count("switching_entries", int64(len(ck.KeySwitchingKey)))

	a1 := params.BSKAlpha()
	rows := make([]moments, 2*g.L)
	bmasks := map[uint64]string{}
	shared = newStretches(len(ck.BootstrappingKey) * 2 * g.L * g.N)
	pes := make([]*poly.Evaluator, 8)
	for i := range pes {
		pes[i] = poly.NewEvaluator(g.N)
	}
	c.Par(cn, 8, len(ck.BootstrappingKey), func(w, i int) {
		for row := range ck.BootstrappingKey[i].TRLWEFFT {
			ct := decode(pes[w], &ck.BootstrappingKey[i].TRLWEFFT[row])
			ph := orc.PhaseRing(ct, sk.KeyLv1)
			lev := row % g.L
			gad := sk.KeyLv0[i] << (32 - (lev+1)*int(g.BGBIT))
			var n, s, q float64
			for x := range ph {
				var want T
				if row < g.L { // on the mask: the phase carries -bit*gadget*key
					want = -gad * sk.KeyLv1[x]
				} else if x == 0 {
					want = gad
				}
				e := orc.Err(ph[x], want)
				if math.Abs(e) > 7.5*a1+8*lsb {
					c.Fail(cn, "bootstrapping entry %d row %d coefficient %d: error %g, allowed %g", i, row, x, e, 7.5*a1+8*lsb)
				}
				n++
				s += e
				q += e * e
			}
			rows[row].add(n, s, q)
			// without the first coefficient, which carries the gadget
			if o, at, found := shared.add(ct.A[1:], i*2*g.L+row); found {
				c.Fail(cn, "bootstrapping entry %d row %d shares a stretch of its mask (around place %d) with entry %d row %d", i, row, at+1, o/(2*g.L), o%(2*g.L))
			}
			h := orc.HashT(ct.A)
			c.SeenHash(h + uint64(i))
			mu.Lock()
			if o, dup := bmasks[h]; dup {
				mu.Unlock()
				c.Fail(cn, "bootstrapping entry %d row %d has the mask of %s", i, row, o)
			}
			bmasks[h] = fmt.Sprintf("entry %d row %d", i, row)
			mu.Unlock()
		}
	})
	for row := range rows {
		rows[row].judge(c, cn, fmt.Sprintf("bootstrapping row %d", row), a1)
	}
	c.Count("bootstrapping_rows", int64(len(ck.BootstrappingKey)*2*g.L))
}

// stretches looks for stretches of masks that occur twice, anywhere, also when they
// are shifted, negated, read backwards or moved by a constant.
type stretches struct {
	sync.Mutex
	rate uint64
	m    map[uint64]int
}

func newStretches(total int) *stretches {
	return &stretches{rate: uint64(max(64, total/500000)), m: map[uint64]int{}}
}

func (s *stretches) n() int64 { return int64(len(s.m)) }

func (s *stretches) add(a []T, id int) (other, at int, found bool) {
	type hit struct {
		h uint64
		i int
	}
	var hits []hit
	for i := 0; i+3 < len(a); i++ {
		d0, d1, d2 := a[i+1]-a[i], a[i+2]-a[i+1], a[i+3]-a[i+2]
		if d1>>31 != 0 {
			d0, d1, d2 = -d0, -d1, -d2
		}
		if d0 > d2 {
			d0, d2 = d2, d0
		}
		h := (uint64(d0)<<32|uint64(d2))*0x9e3779b97f4a7c15 ^ uint64(d1)*0xbf58476d1ce4e5b9
		h ^= h >> 31
		h *= 0xd6e8feb86659fd93
		h ^= h >> 32
		if h%s.rate == 0 {
			hits = append(hits, hit{h, i})
		}
	}
	s.Lock()
	defer s.Unlock()
	for _, x := range hits {
		if o, dup := s.m[x.h]; dup {
			return o, x.i, true
		}
		s.m[x.h] = id
	}
	return
}

func decode(pe *poly.Evaluator, row *trgsw.TRLWELv1FFT) *trlwe.TRLWELv1 {
	a, b := pe.ToPoly(row.A), pe.ToPoly(row.B)
	return &trlwe.TRLWELv1{A: a.Coeffs, B: b.Coeffs}
}
