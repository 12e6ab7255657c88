// C05: programmable bootstrapping evaluates any function of the message.
package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"

	"verif/orc"
	"verif/vk"
)

type T = params.Torus

var shardProfiles = []string{"128", "128", "110", "80", "uint1", "uint2", "uint2", "uint3", "uint4", "uint5"}

func main() {
	vk.Main(vk.Spec{
		Prop: "C05",
		Rule: "one evaluation = one programmable bootstrap whose decrypted result and phase are judged; signature (profile, modulus, function kind, message, result, entry point, origin of the input)",
		Assumptions: []string{
			"moduli are supported at a profile when half a message step is at least 8 standard deviations of the bootstrap noise and 4.5 of the mod-switch rounding",
			"a ciphertext whose rounded phase (computed with the secret key) has left its message's interval is not judged; these are counted",
		},
		Shards:   func(string) int { return len(shardProfiles) },
		MinEvals: 800,
		Run:      run,
	})
}

type fn struct {
	kind string
	f    func(int) int
}

func fnFor(r *rand.Rand, m int) fn {
	switch r.Intn(9) {
	case 0:
		return fn{"identity", func(x int) int { return x }}
	case 1:
		k := r.Intn(m)
		return fn{"constant", func(int) int { return k }}
	case 2:
		return fn{"negative", func(x int) int { return -x - 1 }}
	case 3:
		t := make([]int, m)
		for i := range t {
			t[i] = r.Intn(20*m) - 10*m
		}
		return fn{"wild", func(x int) int { return t[x] }}
	case 4:
		p := r.Perm(m)
		return fn{"permutation", func(x int) int { return p[x] }}
	case 5:
		p := r.Intn(m)
		return fn{"delta", func(x int) int {
			if x == p {
				return m - 1
			}
			return 0
		}}
	case 6:
		return fn{"square", func(x int) int { return x * x }}
	case 7:
		return fn{"alternate", func(x int) int { return (x & 1) * (m - 1) }}
	}
	t := make([]int, m)
	for i := range t {
		t[i] = r.Intn(m)
	}
	return fn{"random", func(x int) int { return t[x] }}
}

func mod(x, m int) int {
	x %= m
	if x < 0 {
		x += m
	}
	return x
}

type item struct {
	ct *tlwe.TLWELv0
	x  int
}

func run(c *vk.C) {
	p := orc.ByName(shardProfiles[c.Shard])
	k := orc.KeysFor(p)
	r := c.Rand("pbs")
	n := params.GetTRGSWLv1().N
	key := k.SK.KeyLv0
	alpha := params.GetTLWELv0().ALPHA
	sw := orc.SwitchSD()
	var moduli []int
	for m := 2; m <= 64; m++ {
		half := 1 / float64(4*m)
		if half >= 8*p.Sig && half >= 4.5*sw || m == p.M {
			moduli = append(moduli, m)
		}
	}
	c.Note("profile %s: moduli %v", p.Name, moduli)
	evs := []*evaluator.Evaluator{evaluator.NewEvaluator(n), evaluator.NewEvaluator(n).ShallowCopy()}
	evs = append(evs, evs[0].ShallowCopy())
	chains := map[int][]item{}
	total := c.Pick(210, 5000)
	if n == 2048 {
		total = total * 5 / 8
	}
	// every message of the native modulus first, then everything else
	type tabT struct {
		f fn
		t *lut.LookUpTable
	}
	tabs := map[int][]tabT{}
	bad := 0
	for i := 0; i < total; i++ {
		m := p.M
		if i >= 2*p.M && r.Intn(5) != 0 {
			m = moduli[r.Intn(len(moduli))]
		}
		x := r.Intn(m)
		if i < 2*p.M {
			x = i % p.M
		}
		f := fnFor(r, m)
		entry := i % 6
		gen := lut.NewGenerator(m)
		var table *lut.LookUpTable
		if entry >= 2 {
			if ts := tabs[m]; len(ts) > 2 && r.Intn(3) != 0 {
				t := ts[r.Intn(len(ts))]
				f, table = t.f, t.t
			} else {
				table = gen.GenLookUpTable(f.f)
				tabs[m] = append(ts, tabT{f, table})
			}
		}
		// input
		var ct *tlwe.TLWELv0
		origin := ""
		step := 1 / float64(2*n)
		half := 1 / float64(4*m)
		switch o := r.Intn(8); {
		case o == 0 && len(chains[m]) > 0:
			it := chains[m][r.Intn(len(chains[m]))]
			ct, x, origin = it.ct, it.x, "chained"
		case o == 1 && len(chains[m]) > 0:
			a := chains[m][r.Intn(len(chains[m]))]
			y := r.Intn(m - a.x)
			b := tlwe.NewTLWELv0().EncryptLWEMessage(y, m, alpha, key)
			ct, x, origin = a.ct.Add(b), a.x+y, "sum"
		case o == 2:
			e := math.Trunc((half-3*step)*(2*r.Float64()-1)/step) * step
			ct, origin = orc.GridCT(r, key, n, orc.MsgMu(x, m)+orc.Enc(e)), "noisy"
		case o == 3:
			s := 1.0
			if r.Intn(2) == 0 {
				s = -1
			}
			e := math.Trunc(s*(half-3*step)/step) * step
			ct, origin = orc.GridCT(r, key, n, orc.MsgMu(x, m)+orc.Enc(e)), "edge"
		case o == 4:
			ct = tlwe.NewTLWELv0()
			ct.SetB(orc.MsgMu(x, m))
			origin = "trivial"
		case o == 5:
			// out-of-range integer, same message
			ct, origin = tlwe.NewTLWELv0().EncryptLWEMessage(x+m*(r.Intn(9)-4), m, alpha, key), "wrapped"
		default:
			ct, origin = tlwe.NewTLWELv0().EncryptLWEMessage(x, m, alpha, key), "fresh"
		}
		// is the message still the nearest one after rounding to the grid?
		off := orc.Err(T(orc.RotPhase(ct, key, n))*T(uint64(1<<32)/uint64(2*n)), orc.MsgMu(x, m))
		if math.Abs(off) > half-2.5*step {
			bad++
			c.Count("inputs_not_judged", 1)
			continue
		}
		ev := evs[r.Intn(len(evs))]
		if r.Intn(12) == 0 {
			ev = evaluator.NewEvaluator(n)
		}
		bsk, ksk, do := k.CK.BootstrappingKey, k.CK.KeySwitchingKey, k.CK.DecompositionOffset
		want := mod(f.f(x), m)
		name := fmt.Sprintf("profile=%s modulus=%d function=%s f(%d)=%d entry=%d input=%s", p.Name, m, f.kind, x, want, entry, origin)
		var out *tlwe.TLWELv0
		var wantT T
		c.Guard(name, func() {
			wantT = orc.MsgMu(want, m)
			switch entry {
			case 0:
				out = ev.BootstrapFunc(ct, f.f, m, bsk, ksk, do)
			case 1:
				out = tlwe.NewTLWELv0()
				orc.Mixed(r, out.P)
				ev.BootstrapFuncAssign(ct, f.f, m, bsk, ksk, do, out)
			case 2:
				out = ev.BootstrapLUT(ct, table, bsk, ksk, do)
			case 3:
				out = orc.CloneLWE(ev.BootstrapLUTTemp(ct, table, bsk, ksk, do))
			case 4:
				out = tlwe.NewTLWELv0()
				orc.Mixed(r, out.P)
				ev.BootstrapLUTAssign(ct, table, bsk, ksk, do, out)
			case 5: // torus-valued table
				vals := make([]T, m)
				for j := range vals {
					vals[j] = T(r.Uint32())
				}
				out = ev.BootstrapLUT(ct, gen.GenLookUpTableFull(func(j int) T { return vals[j] }), bsk, ksk, do)
				wantT = vals[x]
			}
		})
		e := orc.Err(orc.Phase0(out, key), wantT)
		got := out.DecryptLWEMessage(m, key)
		if entry != 5 && got != want {
			c.Fail(name, "decrypts to %d (phase error %g)", got, e)
		}
		if math.Abs(e) > 9*p.Sig+1e-9 {
			c.Fail(name, "phase error %g, bound %g, decrypts to %d", e, 9*p.Sig, got)
		}
		c.NoiseOnce("output "+p.Name, orc.HashT(out.P), e)
		c.Seen("%s|%d|%s|%d|%d|%d|%s", p.Name, m, f.kind, x, want, entry, origin)
		c.Count("input_"+origin, 1)
		if entry != 5 {
			ch := chains[m]
			if len(ch) < 6 {
				chains[m] = append(ch, item{out, want})
			} else {
				ch[r.Intn(len(ch))] = item{out, want}
			}
		}
	}
	if bad > total/20+3 {
		c.Fail("profile="+p.Name, "%d of %d inputs left their message's interval by rounding alone", bad, total)
	}
	orc.JudgeNoise(c, "profile="+p.Name, "output "+p.Name, p)
}
