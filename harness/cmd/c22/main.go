// C22: proxy re-encryption moves ciphertexts to the target key only.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"runtime/debug"

	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"

	"verif/orc"
	"verif/vk"
)

type T = params.Torus

func main() {
	vk.Main(vk.Spec{
		Prop: "C22",
		Rule: "one evaluation = one re-encryption (its phase under the target key compared with the source phase plus the exact rounding of the mask) or one entry of a re-encryption key (its phase under the target key compared with the value it must encrypt); signature (profile, mode, decomposition, mask shape, content)",
		Assumptions: []string{
			"allowance 7.5 standard deviations of the noise of the entries used; noise-free keys are compared exactly",
			"unreadability under other keys is judged statistically: decryptions agree with the message in half of the cases within 6.5 standard errors",
			"mask coefficients avoid exact ties of the rounding",
		},
		Shards:   func(string) int { return len(orc.Profiles) },
		Width:    6,
		MinEvals: 10000,
		Run:      run,
	})
}

type rk struct {
	name    string
	from    []T
	to      []T
	basebit int
	t       int
	sd      float64 // deviation of one entry
	k       *proxyreenc.ProxyReencryptionKey
}

func secret() []T { return key.NewSecretKey().KeyLv0 }

// wrongProb is the probability that noise moves 1/8 out of the half circle.
func wrongProb(sd float64) float64 {
	return (math.Erfc(0.125/sd/math.Sqrt2) + math.Erfc(0.375/sd/math.Sqrt2)) / 2
}

// pkSD is the deviation of a signed random subset sum of the public samples,
// given their actual noise.
func pkSD(pk *proxyreenc.PublicKeyLv0, s []T, alpha float64) float64 {
	v := alpha * alpha
	for _, e := range pk.Encryptions {
		d := orc.Err(orc.Phase0(e, s), 0)
		v += d * d / 2
	}
	return math.Sqrt(v)
}

func run(c *vk.C) {
	p := orc.Profiles[c.Shard]
	p.Use()
	r := c.Rand("c22")
	g := params.GetTRGSWLv1()
	a0 := params.KSKAlpha()
	n := params.GetTLWELv0().N

	// custom decompositions, symmetric
	sets := [][2]int{{1, 8}, {2, 7}, {3, 5}, {4, 4}, {5, 3}, {8, 2}, {1, 20}, {2, 16}, {4, 8}, {6, 1}, {7, 4}, {8, 4}, {1, 32}, {1, 1}}
	for i, bt := range sets {
		if i%c.NShards != c.Shard && (i+5)%c.NShards != c.Shard && c.Quick() {
			continue
		}
		for _, alpha := range []float64{0, 1e-7} {
			if alpha > 0 && c.Quick() && (1<<bt[0])*bt[1] > 256 {
				continue
			}
			a, b := secret(), secret()
			extreme(r, i+c.Shard, a, b)
			k := &rk{fmt.Sprintf("symmetric base 2^%d, %d levels, noise %g", bt[0], bt[1], alpha), a, b, bt[0], bt[1], alpha, nil}
			c.Guard("profile="+p.Name+" "+k.name, func() {
				k.k = proxyreenc.NewProxyReencryptionKeySymmetricWithParams(a, b, alpha, bt[0], bt[1])
				exercise(c, p, r, k, c.Pick(40, 400))
			})
			k.k = nil
			debug.FreeOSMemory()
		}
	}
	// custom, asymmetric
	for i, bt := range [][2]int{{2, 8}, {4, 4}, {1, 14}, {4, 8}} {
		if i%4 != c.Shard%4 && c.Quick() {
			continue
		}
		a, b := secret(), secret()
		extreme(r, []int{1, 3, 5, 6, 8, 9, 0}[r.Intn(7)], a, b)
		for _, size := range []int{1, 12} {
			pk := proxyreenc.NewPublicKeyLv0WithParams(b, size, 3e-7)
			k := &rk{fmt.Sprintf("asymmetric base 2^%d, %d levels, %d public samples", bt[0], bt[1], size), a, b, bt[0], bt[1], pkSD(pk, b, 1e-7), nil}
			c.Guard("profile="+p.Name+" "+k.name, func() {
				k.k = proxyreenc.NewProxyReencryptionKeyAsymmetricWithParams(a, pk, 1e-7, bt[0], bt[1])
				exercise(c, p, r, k, c.Pick(40, 400))
			})
			k.k = nil
			debug.FreeOSMemory()
		}
	}
	// the defaults
	heavy := (1<<g.BASEBIT)*g.IKS_T*n > 1<<17
	if !heavy || !c.Quick() {
		a, b := secret(), secret()
		k := &rk{"symmetric default", a, b, g.BASEBIT, g.IKS_T, a0, nil}
		c.Guard("profile="+p.Name+" "+k.name, func() {
			k.k = proxyreenc.NewProxyReencryptionKeySymmetric(a, b)
			exercise(c, p, r, k, c.Pick(120, 1200))
			readable(c, p, r, k)
		})
	}
	if (1<<g.BASEBIT)*g.IKS_T*n <= 1<<16 || !c.Quick() && !heavy {
		a, b := secret(), secret()
		pk := proxyreenc.NewPublicKeyLv0(b)
		k := &rk{"asymmetric default", a, b, g.BASEBIT, g.IKS_T, pkSD(pk, b, a0), nil}
		c.Guard("profile="+p.Name+" "+k.name, func() {
			k.k = proxyreenc.NewProxyReencryptionKeyAsymmetric(a, pk)
			exercise(c, p, r, k, c.Pick(120, 1200))
			readable(c, p, r, k)
		})
		used := float64(n*g.IKS_T) * (1 - 1/float64(int(1)<<g.BASEBIT))
		if sd := k.sd * math.Sqrt(used); 6*sd > 0.125 {
			c.Finding("asymmetric-default-noise "+p.Name, "a re-encrypted boolean has noise of deviation %.3g, decision distance 0.125: it decrypts wrongly with probability %.2g", sd, wrongProb(sd))
		}
	}
	chains(c, p, r)
}

// extreme turns some keys into extreme ones.
func extreme(r *rand.Rand, i int, a, b []T) {
	switch i % 10 {
	case 1:
		for q := range a {
			a[q] = 1
		}
	case 3:
		for q := range a {
			a[q] = 0
		}
	case 5:
		for q := range b {
			b[q] = 1
		}
	case 6:
		copy(b, a) // rotation to the same key
	case 8: // keys of a single set bit
		for q := range a {
			a[q], b[q] = 0, 0
		}
		a[r.Intn(len(a))], b[r.Intn(len(b))] = 1, 1
	case 9: // complementary keys
		for q := range b {
			b[q] = 1 - a[q]
		}
	}
}

// near is the exact rounding the decomposition performs.
func near(v T, basebit, t int) T {
	bits := basebit * t
	if bits >= 32 {
		return v
	}
	step := uint64(1) << (32 - bits)
	return T((uint64(v) + step/2) / step * step)
}

func usedDigits(v T, basebit, t int) (u int) {
	for j := 0; j < t; j++ {
		if v>>(32-(j+1)*basebit)&(1<<basebit-1) != 0 {
			u++
		}
	}
	return
}

func hashKey(k *proxyreenc.ProxyReencryptionKey) uint64 {
	h := uint64(k.Base)<<32 + uint64(k.T)
	for _, e := range k.KeyEncryptions {
		h = h*1099511628211 + orc.HashT(e.P)
	}
	return h
}

func exercise(c *vk.C, p orc.Profile, r *rand.Rand, k *rk, count int) {
	n := len(k.from)
	cn := "profile=" + p.Name + " " + k.name
	base := 1 << k.basebit
	if k.k.Base != base || k.k.T != k.t || len(k.k.KeyEncryptions) != base*k.t*n {
		c.Fail(cn, "key has base %d, %d levels and %d entries", k.k.Base, k.k.T, len(k.k.KeyEncryptions))
	}
	// every entry
	var sq float64
	cnt := 0
	for i := 0; i < n; i++ {
		for j := 0; j < k.t; j++ {
			for d := 1; d < base; d++ {
				e := k.k.KeyEncryptions[base*k.t*i+base*j+d]
				want := T(d) * k.from[i] << (32 - (j+1)*k.basebit)
				err := orc.Err(orc.Phase0(e, k.to), want)
				tol := 7.5*k.sd + 3*math.Exp2(-32)
				if k.sd == 0 {
					tol = 0
				}
				if math.Abs(err) > tol {
					c.Fail(cn, "entry for key bit %d, level %d, digit %d: error %g, allowed %g", i, j, d, err, tol)
				}
				sq += err * err
				cnt++
				c.SeenHash(orc.HashT(e.P[:3]))
			}
		}
	}
	if rms := math.Sqrt(sq / float64(cnt)); k.sd > 0 && (rms > 1.1*k.sd+math.Exp2(-32) || rms < 0.9*k.sd) {
		c.Fail(cn, "entries have noise of root mean square %g, predicted %g", rms, k.sd)
	}
	c.Count("key_entries", int64(cnt))
	hk := hashKey(k.k)
	for i := 0; i < count; i++ {
		ct, shape := source(r, k, i)
		h := orc.HashT(ct.P)
		out := proxyreenc.ReencryptTLWELv0(ct, k.k)
		if orc.HashT(ct.P) != h {
			c.Fail(cn, "re-encryption changed its input")
		}
		judge(c, p, k, shape, ct, out)
	}
	if hashKey(k.k) != hk {
		c.Fail(cn, "re-encryption changed its key")
	}
}

func judge(c *vk.C, p orc.Profile, k *rk, shape string, ct, out *tlwe.TLWELv0) {
	n := len(k.from)
	cn := "profile=" + p.Name + " " + k.name + " mask=" + shape
	if len(out.P) != n+1 {
		c.Fail(cn, "result has %d coefficients", len(out.P))
	}
	want := ct.P[n]
	used := 0
	for q := 0; q < n; q++ {
		v := near(ct.P[q], k.basebit, k.t)
		want -= v * k.from[q]
		used += usedDigits(v, k.basebit, k.t)
	}
	e := orc.Err(orc.Phase0(out, k.to), want)
	sd := k.sd * math.Sqrt(float64(used))
	tol := 7.5*sd + 3*math.Sqrt(float64(used))*math.Exp2(-32)
	if k.sd == 0 {
		tol = 0
	}
	if math.Abs(e) > tol {
		c.Fail(cn, "phase error under the target key %g, allowed %g (%d entries used)", e, tol, used)
	}
	if sd > 0 {
		c.Noise("error in predicted deviations", e/sd)
	}
	c.Count("reencryptions", 1)
	c.Seen("%s|%s|%s|%x", p.Name, k.name, shape, orc.HashT(ct.P))
}

func source(r *rand.Rand, k *rk, i int) (*tlwe.TLWELv0, string) {
	n := len(k.from)
	ct := tlwe.NewTLWELv0()
	name := "uniform"
	switch i % 8 {
	case 0:
		ct.EncryptBool(i%16 == 0, params.GetTLWELv0().ALPHA, k.from)
		name = "encryption"
	case 1:
		for q := range ct.P {
			ct.P[q] = 0xffffffff
		}
		name = "all largest"
	case 2:
		ct.P[n] = T(r.Uint32())
		name = "zero mask"
	case 3:
		for q := range ct.P {
			ct.P[q] = orc.Edges[r.Intn(len(orc.Edges))]
		}
		name = "edge values"
	case 4:
		q := []int{0, n - 1, r.Intn(n)}[r.Intn(3)]
		j, d := r.Intn(k.t), 1+r.Intn(1<<k.basebit-1)
		ct.P[q] = T(d) << (32 - (j+1)*k.basebit)
		name = fmt.Sprintf("single digit level %d value %d", j, d)
	default:
		orc.Fill(r, ct.P)
	}
	if bits := k.basebit * k.t; bits < 32 {
		step := T(1) << (32 - bits)
		for q := 0; q < n; q++ {
			if ct.P[q]%step == step/2 {
				ct.P[q]++
			}
		}
	}
	return ct, name
}

// readable checks that only the target key reads the result and that the key
// does not work backwards.
func readable(c *vk.C, p orc.Profile, r *rand.Rand, k *rk) {
	other := secret()
	const m = 300
	agree := map[string]int{}
	a0 := params.GetTLWELv0().ALPHA
	wrong := 0
	for i := 0; i < m; i++ {
		b := r.Intn(2) == 0
		ct := tlwe.NewTLWELv0().EncryptBool(b, a0, k.from)
		out := proxyreenc.ReencryptTLWELv0(ct, k.k)
		// the noise is that of the key entries used; their errors add up alike
		// in all re-encryptions with one key, so wrong decryptions are not
		// counted against a rate: each result is judged by its own phase
		judge(c, p, k, "encryption", ct, out)
		if out.DecryptBool(k.to) != b {
			wrong++
		}
		if out.DecryptBool(k.from) == b {
			agree["the result under the delegator's key"]++
		}
		if out.DecryptBool(other) == b {
			agree["the result under an unrelated key"]++
		}
		back := tlwe.NewTLWELv0().EncryptBool(b, a0, k.to)
		if proxyreenc.ReencryptTLWELv0(back, k.k).DecryptBool(k.from) == b {
			agree["the key used in the other direction"]++
		}
		if proxyreenc.ReencryptTLWELv0(back, k.k).DecryptBool(k.to) == b {
			agree["a ciphertext that is already under the target key"]++
		}
		c.Seen("%s|%s|readable|%x", p.Name, k.name, orc.HashT(out.P))
	}
	g := params.GetTRGSWLv1()
	used := float64(len(k.from)*g.IKS_T) * (1 - 1/float64(int(1)<<g.BASEBIT))
	round := math.Exp2(-float64(g.BASEBIT*g.IKS_T)) * math.Sqrt(float64(len(k.from))/24)
	sd := math.Sqrt(k.sd*k.sd*used + a0*a0 + round*round)
	pw := wrongProb(sd)
	if wrong > 0 && 7*sd < 0.125 {
		c.Fail("profile="+p.Name+" "+k.name, "%d of %d re-encrypted booleans decrypt wrongly; the noise explains a rate of %.2g", wrong, m, pw)
	}
	c.Count("wrong_decryptions_explained_by_noise", int64(wrong))
	for what, a := range agree {
		if z := (float64(a) - m/2) / math.Sqrt(m/4); math.Abs(z) > 6.5 {
			c.Fail("profile="+p.Name+" "+k.name, "%s: decrypts to the message in %d of %d cases", what, a, m)
		}
	}
	c.Count("readability_trials", m)
}

// chains re-encrypts along several hops and back to the first key.
func chains(c *vk.C, p orc.Profile, r *rand.Rand) {
	hops := c.Pick(4, 8)
	keys := make([][]T, hops+1)
	for i := range keys {
		keys[i] = secret()
	}
	keys[hops] = keys[0]
	bb, t := 4, 6
	const alpha = 1e-7
	var rks []*rk
	c.Guard("profile="+p.Name+" chain", func() {
		for i := 0; i < hops; i++ {
			k := &rk{fmt.Sprintf("hop %d", i), keys[i], keys[i+1], bb, t, alpha, nil}
			if i%2 == 0 {
				k.k = proxyreenc.NewProxyReencryptionKeySymmetricWithParams(keys[i], keys[i+1], alpha, bb, t)
			} else {
				pk := proxyreenc.NewPublicKeyLv0WithParams(keys[i+1], 8, alpha)
				k.sd = pkSD(pk, keys[i+1], alpha)
				k.k = proxyreenc.NewProxyReencryptionKeyAsymmetricWithParams(keys[i], pk, alpha, bb, t)
			}
			rks = append(rks, k)
		}
		for i := 0; i < c.Pick(40, 400); i++ {
			m := 16
			x := r.Intn(m)
			ct := tlwe.NewTLWELv0().EncryptLWEMessage(x, m, 1e-7, keys[0])
			for h, k := range rks {
				out := proxyreenc.ReencryptTLWELv0(ct, k.k)
				judge(c, p, k, "chain", ct, out)
				if got := out.DecryptLWEMessage(m, keys[h+1]); got != x {
					c.Fail("profile="+p.Name+" chain", "message %d reads %d after %d hops", x, got, h+1)
				}
				ct = out
			}
		}
	})
	c.Count("chains", int64(c.Pick(40, 400)))
}
