// C23: public-key encryption is correct and randomised.
package main

import (
	"fmt"
	"math"
	"math/bits"
	"math/rand"
	"sync"

	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"

	"verif/orc"
	"verif/vk"
)

type T = params.Torus

func main() {
	vk.Main(vk.Spec{
		Prop: "C23",
		Rule: "one evaluation = one public-key ciphertext (its phase compared with the encoding of the value, given the actual noise of the public samples) or one public sample; signature (profile, public key kind, message kind, content)",
		Assumptions: []string{
			"allowance 7.5 standard deviations of a random signed subset sum of the actual public noise plus the requested fresh noise; root mean square within 20 percent over many encryptions",
			"a public key with unit-vector masks, put together by the harness, makes the chosen combination visible: each sample must occur with both signs and be left out, without bias beyond 6.5 standard errors",
		},
		Shards:   func(string) int { return len(orc.Profiles) },
		MinEvals: 5000,
		Run:      run,
	})
}

func hashPK(pk *proxyreenc.PublicKeyLv0) uint64 {
	h := uint64(len(pk.Encryptions))
	for _, e := range pk.Encryptions {
		h = h*1099511628211 + orc.HashT(e.P)
	}
	return h
}

func run(c *vk.C) {
	p := orc.Profiles[c.Shard]
	p.Use()
	r := c.Rand("c23")
	a0 := params.GetTLWELv0().ALPHA
	n := params.GetTLWELv0().N
	for kk := 0; kk < c.Pick(2, 10); kk++ {
		s := key.NewSecretKey().KeyLv0
		if kk == 1 {
			for i := range s {
				s[i] = 1
			}
		}
		keyed(c, p, r, s, fmt.Sprintf("default (key %d)", kk), proxyreenc.NewPublicKeyLv0(s), 2*n, a0, c.Pick(300, 1500))
		for _, q := range []struct {
			size  int
			alpha float64
		}{{0, a0}, {1, a0}, {2, 0}, {3, 1e-3}, {n / 2, 1e-6}, {3 * n, 0}, {64, 1e-4}} {
			count := c.Pick(120, 600)
			if q.size < 8 {
				count = c.Pick(1600, 6000)
			}
			keyed(c, p, r, s, fmt.Sprintf("%d samples of noise %g (key %d)", q.size, q.alpha, kk),
				proxyreenc.NewPublicKeyLv0WithParams(s, q.size, q.alpha), q.size, q.alpha, count)
		}
	}
	visible(c, p)
}

func keyed(c *vk.C, p orc.Profile, r *rand.Rand, s []T, name string, pk *proxyreenc.PublicKeyLv0, size int, alpha float64, count int) {
	n := len(s)
	cn := "profile=" + p.Name + " public key: " + name
	lsb := math.Exp2(-32)
	c.Guard(cn, func() {
		if len(pk.Encryptions) != size {
			c.Fail(cn, "%d samples, want %d", len(pk.Encryptions), size)
		}
		sum2, sq := 0.0, 0.0
		masks := map[uint64]bool{}
		for i, e := range pk.Encryptions {
			if e == nil || len(e.P) != n+1 {
				c.Fail(cn, "sample %d is missing or has the wrong dimension", i)
			}
			d := orc.Err(orc.Phase0(e, s), 0)
			if math.Abs(d) > 7.5*alpha+2*lsb {
				c.Fail(cn, "sample %d has noise %g, requested deviation %g", i, d, alpha)
			}
			sum2 += d * d / 2
			sq += d * d
			h := orc.HashT(e.P[:n])
			if masks[h] {
				c.Fail(cn, "sample %d repeats the mask of an earlier one", i)
			}
			masks[h] = true
			c.Seen("%s|%s|sample|%x", p.Name, name, h)
		}
		if size >= 300 && alpha > 20*lsb {
			if rms := math.Sqrt(sq / float64(size)); rms > 1.25*alpha || rms < 0.75*alpha {
				c.Fail(cn, "samples have noise of root mean square %g, requested %g", rms, alpha)
			}
		}
		other := key.NewSecretKey().KeyLv0
		h := hashPK(pk)
		seen := map[uint64]bool{}
		var errs []float64
		var byClass [4][]float64
		agree, nb := 0, 0
		var mu sync.Mutex
		one := func(r *rand.Rand, i int) {
			class := i % 4
			fresh := []float64{0, params.GetTLWELv0().ALPHA, 1e-3, 6e-3}[class]
			sd := math.Sqrt(sum2 + fresh*fresh)
			var ct *tlwe.TLWELv0
			var want T
			var kind string
			b := r.Intn(2) == 0
			if i/4%2 == 0 {
				ct, want, kind = pk.EncryptBool(b, fresh), orc.BoolMu(b), "boolean"
			} else {
				x := r.Float64()*4 - 2
				if i%3 == 1 {
					x = 0.3 // the same value again and again
				} else if i%16 == 5 || i%16 == 14 {
					// far beyond the integers that fit a word, still with exact fractions
					x = math.Ldexp(math.Floor(r.Float64()*(1<<53))-(1<<52), -r.Intn(30))
				}
				ct, want, kind = pk.EncryptF64(x, fresh), orc.Enc(x), "real"
			}
			if len(ct.P) != n+1 {
				c.Fail(cn, "ciphertext has %d coefficients", len(ct.P))
			}
			e := orc.Err(orc.Phase0(ct, s), want)
			tol := 7.5*sd + float64(size+3)*lsb
			if size > 50 {
				tol = 7.5*sd + 8*math.Sqrt(float64(size))*lsb + 3*lsb
			}
			if math.Abs(e) > tol {
				c.Fail(cn, "%s with fresh noise %g: phase error %g, allowed %g", kind, fresh, e, tol)
			}
			mu.Lock()
			defer mu.Unlock()
			if sd > 0 {
				errs = append(errs, e/sd)
				byClass[class] = append(byClass[class], e/sd)
				c.Noise(p.Name+" error in predicted deviations", e/sd)
			}
			if i/4%2 == 0 {
				if tol < 0.125 && ct.DecryptBool(s) != b {
					c.Fail(cn, "boolean %v decrypts wrongly", b)
				}
				nb++
				if ct.DecryptBool(other) == b {
					agree++
				}
			}
			hc := orc.HashT(ct.P[:n])
			if size >= 64 {
				if seen[hc] {
					c.Fail(cn, "two encryptions share their mask")
				}
				seen[hc] = true
			}
			c.Seen("%s|%s|%s|%x", p.Name, name, kind, orc.HashT(ct.P))
		}
		for i := 0; i < count/2; i++ {
			one(r, i)
		}
		// the other half from several goroutines sharing the public key
		var wg sync.WaitGroup
		for w := 0; w < 4; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				rr := c.Rand("c23 %s %d", name, w)
				c.Guard(cn, func() {
					for i := w; i < count/2; i += 4 {
						one(rr, i)
					}
				})
			}(w)
		}
		wg.Wait()
		if hashPK(pk) != h {
			c.Fail(cn, "encrypting changed the public key")
		}
		for class, es := range byClass {
			// the fresh noise alone decides classes 2 and 3 of the smaller keys
			if f := float64(len(es)); f >= 25 && (size >= 64 && alpha > 100*lsb || f >= 300 && math.Sqrt(sum2) > 100*lsb || class >= 2 && sum2 < 1e-8) {
				q := 0.0
				for _, e := range es {
					q += e * e
				}
				if rms := math.Sqrt(q / f); rms > 1.1+4.5/math.Sqrt(2*f) || rms < 0.9-4.5/math.Sqrt(2*f) {
					c.Fail(cn, "encryptions of fresh noise class %d: root mean square of the error is %g predicted deviations over %.0f ciphertexts", class, rms, f)
				}
				c.Count("noise_classes_judged", 1)
			}
		}
		if size >= 64 && alpha > 100*lsb {
			var q, m float64
			for _, e := range errs {
				q += e * e
				m += e
			}
			f := float64(len(errs))
			if rms := math.Sqrt(q / f); rms > 1.2+5/math.Sqrt(2*f)-0.1 || rms < 0.8-5/math.Sqrt(2*f)+0.1 {
				c.Fail(cn, "root mean square of the error is %g predicted deviations over %.0f ciphertexts", rms, f)
			}
			if math.Abs(m/math.Sqrt(f)) > 6.5 {
				c.Fail(cn, "errors are biased: mean %g predicted deviations over %.0f ciphertexts", m/f, f)
			}
		}
		if size >= 64 {
			if z := (float64(agree) - float64(nb)/2) / math.Sqrt(float64(nb)/4); math.Abs(z) > 6.5 {
				c.Fail(cn, "an unrelated key decrypts %d of %d booleans", agree, nb)
			}
		}
		c.Count("public_key_ciphertexts", int64(count))
	})
}

// visible uses a public key whose masks are unit vectors, so that the mask of a
// ciphertext shows the combination that was chosen.
func visible(c *vk.C, p orc.Profile) {
	dim := params.GetTLWELv0().N
	cn := "profile=" + p.Name + " public key with unit-vector masks"
	pk := &proxyreenc.PublicKeyLv0{}
	// as many samples as a default key has: sample i+dim has three times the mask of
	// sample i, so the two signs at a position remain visible
	n := 2 * dim
	for i := 0; i < n; i++ {
		e := tlwe.NewTLWELv0()
		e.P[i%dim] = 1 << 20
		if i >= dim {
			e.P[i%dim] = 3 << 20
		}
		e.P[dim] = 1 << 8
		pk.Encryptions = append(pk.Encryptions, e)
	}
	keep := n + 200
	m := c.Pick(keep, 20000)
	used, sum := make([]int, n), make([]int, n)
	serial, lastAgree := 0, 0
	var last []int
	var all [][]int8
	c.Guard(cn, func() {
		for k := 0; k < m; k++ {
			ct := pk.EncryptF64(0.25, 0)
			co := make([]int, n)
			tot := 0
			for i := 0; i < dim; i++ {
				v := int(int32(ct.P[i]))
				if v&(1<<20-1) != 0 || v > 4<<20 || v < -4<<20 {
					c.Fail(cn, "sample %d or %d enters with mask %#x: more than once or scaled", i, i+dim, uint32(ct.P[i]))
				}
				v >>= 20
				hi := (v+4)/3 - 1
				co[i+dim], co[i] = hi, v-3*hi
			}
			for i := 0; i < n; i++ {
				if co[i] != 0 {
					used[i]++
				}
				sum[i] += co[i]
				tot += co[i]
				if i > 0 {
					serial += co[i] * co[i-1]
				}
				if last != nil {
					lastAgree += co[i] * last[i]
				}
			}
			if want := T(1<<30) + T(tot)*256; orc.Dist(want, ct.P[dim]) > 1 {
				c.Fail(cn, "the body does not follow the combination of the masks: %#x, want %#x", uint32(ct.P[dim]), uint32(want))
			}
			last = co
			if len(all) < keep {
				row := make([]int8, n)
				for i, v := range co {
					row[i] = int8(v)
				}
				all = append(all, row)
			}
			c.SeenHash(orc.HashT(ct.P))
		}
	})
	f := float64(m)
	for i := 0; i < n; i++ {
		if u := float64(used[i]) / f; u < 0.2 || u > 0.9 {
			c.Fail(cn, "sample %d takes part in %d of %d encryptions", i, used[i], m)
		}
		if z := float64(sum[i]) / math.Sqrt(float64(used[i])+1); math.Abs(z) > 6.5 {
			c.Fail(cn, "sample %d has a biased sign: sum %d over %d uses", i, sum[i], used[i])
		}
	}
	for what, v := range map[string]int{"neighbouring samples": serial, "successive encryptions": lastAgree} {
		if z := float64(v) / math.Sqrt(f*float64(n)/4); math.Abs(z) > 9 {
			c.Fail(cn, "signs of %s are correlated: %d over %.0f", what, v, f*float64(n))
		}
	}
	if d := n - rank(all, n); d > 20 {
		c.Fail(cn, "the choices of samples satisfy %d linear relations: they come from too little randomness", d)
	}
	pairs(c, cn, "samples %d and %d of the public key", "encryptions", all, true)
	pairs(c, cn, "encryptions %d and %d", "samples", all, false)
	c.Count("visible_combinations", int64(m))
}

// rank is the rank over GF(2) of the choices, one row per encryption.
func rank(all [][]int8, n int) (rk int) {
	words := (n + 63) / 64
	basis := make([][]uint64, n)
	for _, row := range all {
		v := make([]uint64, words)
		for i, x := range row {
			if x != 0 {
				v[i/64] |= 1 << (i % 64)
			}
		}
		for i := 0; i < n; i++ {
			if v[i/64]>>(i%64)&1 == 0 {
				continue
			}
			if basis[i] == nil {
				basis[i] = v
				rk++
				break
			}
			for w := range v {
				v[w] ^= basis[i][w]
			}
		}
	}
	return
}

// pairs looks for dependence between any two samples (byColumn) or any two
// encryptions: being used, and the signs when both are used.
func pairs(c *vk.C, cn, what, of string, all [][]int8, byColumn bool) {
	rows, cols := len(all), len(all[0])
	if byColumn {
		rows, cols = cols, rows
	}
	words := (cols + 63) / 64
	use, neg := make([][]uint64, rows), make([][]uint64, rows)
	cnt := make([]float64, rows)
	for i := range use {
		use[i], neg[i] = make([]uint64, words), make([]uint64, words)
		for k := 0; k < cols; k++ {
			var v int8
			if byColumn {
				v = all[k][i]
			} else {
				v = all[i][k]
			}
			if v != 0 {
				use[i][k/64] |= 1 << (k % 64)
				cnt[i]++
			}
			if v < 0 {
				neg[i][k/64] |= 1 << (k % 64)
			}
		}
	}
	f := float64(cols)
	worst := 0.0
	for i := 0; i < rows; i++ {
		for j := i + 1; j < rows; j++ {
			both, opp := 0, 0
			for w := 0; w < words; w++ {
				u := use[i][w] & use[j][w]
				both += bits.OnesCount64(u)
				opp += bits.OnesCount64((neg[i][w] ^ neg[j][w]) & u)
			}
			p, q := cnt[i]/f, cnt[j]/f
			z := (float64(both) - f*p*q) / math.Sqrt(f*p*(1-p)*q*(1-q)+1e-9)
			if math.Abs(z) > 8 {
				c.Fail(cn, what+" are not chosen independently: %.0f and %.0f uses, %d common, in %d %s (%.1f standard errors)", i, j, cnt[i], cnt[j], both, cols, of, z)
			}
			zs := (float64(both) - 2*float64(opp)) / math.Sqrt(float64(both)+1)
			if math.Abs(zs) > 8 {
				c.Fail(cn, what+" have dependent signs: %d of %d common uses differ (%.1f standard errors)", i, j, opp, both, zs)
			}
			worst = math.Max(worst, math.Max(math.Abs(z), math.Abs(zs)))
		}
	}
	c.Count("pairs_tested_for_independence", int64(rows*(rows-1)/2))
	c.Noise("largest pairwise dependence over "+of+" in standard errors", worst)
}
