// C03: a bootstrap resets noise: deep random circuits with a phase monitor on
// every intermediate ciphertext, and inputs whose noise is pushed to the
// decision boundary.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"

	"verif/orc"
	"verif/vk"
)

type T = params.Torus

var shardProfiles = []string{"128", "128", "110", "80", "uint1", "uint2", "uint3", "uint4", "uint5", "uint5"}

func main() {
	vk.Main(vk.Spec{
		Prop: "C03",
		Rule: "one evaluation = one bootstrapped ciphertext whose phase error is measured against its plaintext; signature (profile, operation, plaintext, depth, input noise bucket)",
		Assumptions: []string{
			"bounds: every phase error below 9 times, and the root mean square over the run below 1.4 times, the profile's noise constant (fixed in the monitor, measured on the repaired tree)",
			"inputs whose coefficients are not on the 2N grid keep a distance of 7 standard deviations of the rounding from the decision boundary, so that a correct bootstrap cannot be blamed for it",
		},
		Shards:   func(string) int { return len(shardProfiles) },
		MinEvals: 1000,
		Run:      run,
	})
}

type wire struct {
	ct    *gates.Ciphertext
	v     bool
	depth int
}

type mon struct {
	c *vk.C
	p orc.Profile
	k *orc.Keys
	r *rand.Rand
}

func (m *mon) bit(name, kind string, ct *gates.Ciphertext, want bool) {
	e := orc.Err(orc.Phase0(ct, m.k.SK.KeyLv0), orc.BoolMu(want))
	if math.Abs(e) > 9*m.p.Sig {
		m.c.Fail(name, "phase error %g, bound %g", e, 9*m.p.Sig)
	}
	if ct.DecryptBool(m.k.SK.KeyLv0) != want {
		m.c.Fail(name, "decrypts to %v, want %v", !want, want)
	}
	m.c.NoiseOnce(kind+" "+m.p.Name, orc.HashT(ct.P), e)
	m.c.NoiseOnce("all "+m.p.Name, orc.HashT(ct.P), e)
}

func run(c *vk.C) {
	p := orc.ByName(shardProfiles[c.Shard])
	m := &mon{c, p, orc.KeysFor(p), c.Rand("c03")}
	n := params.GetTRGSWLv1().N
	scale := 1.0 // cost relative to N=1024
	if n == 2048 {
		scale = 3
	}
	m.circuit(int(float64(c.Pick(200, 9000)) / scale))
	m.noisy(int(float64(c.Pick(100, 4000)) / scale))
	m.pbsChain(int(float64(c.Pick(120, 5000)) / scale))
	for _, kind := range []string{"all ", "circuit ", "noisy ", "pbs "} {
		orc.JudgeNoise(c, "noise of "+kind+p.Name, kind+p.Name, p)
	}
	// no growth with depth
	d0, _, n0 := c.SD("depth<8 " + p.Name)
	d1, _, n1 := c.SD("depth>=8 " + p.Name)
	if n0 > 30 && n1 > 60 && d1 > 1.7*math.Max(d0, 0.8*p.Sig) {
		c.Fail("noise growth "+p.Name, "deviation %g at depth below 8, %g beyond", d0, d1)
	}
}

// circuit: a random circuit that keeps rewriting a few wires, so the depth grows
// with the number of gates.
func (m *mon) circuit(steps int) {
	c, r := m.c, m.r
	alpha := params.GetTLWELv0().ALPHA
	ws := make([]wire, 7)
	for i := range ws {
		v := r.Intn(2) == 0
		ws[i] = wire{tlwe.NewTLWELv0().EncryptBool(v, alpha, m.k.SK.KeyLv0), v, 0}
	}
	maxd := 0
	done := func(name string, ct *gates.Ciphertext, v bool, depth, dst int) {
		m.bit(name, "circuit", ct, v)
		if depth < 8 {
			c.NoiseOnce("depth<8 "+m.p.Name, orc.HashT(ct.P), orc.Err(orc.Phase0(ct, m.k.SK.KeyLv0), orc.BoolMu(v)))
		} else {
			c.NoiseOnce("depth>=8 "+m.p.Name, orc.HashT(ct.P), orc.Err(orc.Phase0(ct, m.k.SK.KeyLv0), orc.BoolMu(v)))
		}
		ws[dst] = wire{ct, v, depth}
		if depth > maxd {
			maxd = depth
		}
	}
	for s := 0; s < steps; {
		a, b, d, dst := r.Intn(len(ws)), r.Intn(len(ws)), r.Intn(len(ws)), r.Intn(len(ws))
		x, y, z := ws[a], ws[b], ws[d]
		switch o := r.Intn(20); {
		case o == 0:
			ws[dst] = wire{gates.NOT(x.ct), !x.v, x.depth}
			continue
		case o == 1:
			name := fmt.Sprintf("MUX in circuit, profile %s step %d", m.p.Name, s)
			ct := gates.MUX(x.ct, y.ct, z.ct, m.k.CK)
			v := z.v
			if x.v {
				v = y.v
			}
			dp := max(x.depth, max(y.depth, z.depth)) + 2
			done(name, ct, v, dp, dst)
			c.Seen("mux|%s|%v%v%v|%d", m.p.Name, x.v, y.v, z.v, dp)
			s += 3
		case o == 2:
			g := orc.Batches[r.Intn(len(orc.Batches))]
			k := 1 + r.Intn(5)
			in := make([][2]*gates.Ciphertext, k)
			vals := make([]bool, k)
			deps := make([]int, k)
			for i := range in {
				u, w := ws[r.Intn(len(ws))], ws[r.Intn(len(ws))]
				in[i] = [2]*gates.Ciphertext{u.ct, w.ct}
				vals[i], deps[i] = g.T(u.v, w.v), max(u.depth, w.depth)+1
			}
			res := g.F(in, m.k.CK)
			for i := range res {
				done(fmt.Sprintf("%s item %d in circuit, profile %s step %d", g.Name, i, m.p.Name, s), res[i], vals[i], deps[i], r.Intn(len(ws)))
				c.Seen("%s|%s|%v|%d", g.Name, m.p.Name, vals[i], deps[i])
			}
			s += k
		default:
			g := orc.Gates2[r.Intn(len(orc.Gates2))]
			name := fmt.Sprintf("%s(%v,%v) in circuit, profile %s step %d depth %d", g.Name, x.v, y.v, m.p.Name, s, max(x.depth, y.depth)+1)
			dp := max(x.depth, y.depth) + 1
			done(name, g.F(x.ct, y.ct, m.k.CK), g.T(x.v, y.v), dp, dst)
			c.Seen("%s|%s|%v%v|%d", g.Name, m.p.Name, x.v, y.v, dp)
			s++
		}
	}
	c.Count("circuit_depth_reached_"+m.p.Name, int64(maxd))
}

// weights of the inputs in the linear part of each gate
var weight2 = map[string]int{"XOR": 2, "XNOR": 2}

var batchOf = map[string]func([][2]*gates.Ciphertext, *cloudkey.CloudKey) []*gates.Ciphertext{}

func init() {
	for _, b := range orc.Batches {
		batchOf[strings.TrimPrefix(b.Name, "Batch")] = b.F
	}
}

// noisy: single gates whose inputs carry noise up to the decision boundary.
func (m *mon) noisy(count int) {
	c, r := m.c, m.r
	n := params.GetTRGSWLv1().N
	key := m.k.SK.KeyLv0
	step := 1 / float64(2*n)
	sw := orc.SwitchSD()
	for i := 0; i < count; i++ {
		g := orc.Gates2[i%len(orc.Gates2)]
		w := 1
		if weight2[g.Name] != 0 {
			w = 2
		}
		a, b := r.Intn(2) == 0, r.Intn(2) == 0
		grid := r.Intn(4) != 0
		bound := 0.125 - 3*step
		if !grid {
			bound = 0.125 - 7*sw - step
			if bound < 0.02 {
				grid, bound = true, 0.125-3*step
			}
		}
		// split the bound between the inputs, with either sign
		tot := bound * [4]float64{1, 0.97, 0.6, 0.2}[r.Intn(4)]
		share := r.Float64()
		if r.Intn(3) == 0 {
			share = float64(r.Intn(2))
		}
		ea, eb := tot*share, tot*(1-share)/float64(w)
		if r.Intn(2) == 0 {
			ea = -ea
		}
		if r.Intn(2) == 0 {
			eb = -eb
		}
		var x, y *gates.Ciphertext
		if grid {
			// round towards zero so that the total stays inside
			q := func(e float64) float64 { return math.Trunc(e/step) * step }
			ea, eb = q(ea), q(eb)
			x = orc.GridCT(r, key, n, orc.BoolMu(a)+orc.Enc(ea))
			y = orc.GridCT(r, key, n, orc.BoolMu(b)+orc.Enc(eb))
		} else {
			x = orc.ExactCT(r, key, orc.BoolMu(a)+orc.Enc(ea))
			y = orc.ExactCT(r, key, orc.BoolMu(b)+orc.Enc(eb))
		}
		how := "two ciphertexts"
		switch r.Intn(6) {
		case 0: // the same ciphertext twice
			e := tot / float64(1+w)
			if ea < 0 {
				e = -e
			}
			if grid {
				e = math.Trunc(e/step) * step
			}
			ea, eb, b = e, e, a
			if x = orc.ExactCT(r, key, orc.BoolMu(a)+orc.Enc(e)); grid {
				x = orc.GridCT(r, key, n, orc.BoolMu(a)+orc.Enc(e))
			}
			y = x
			how = "one ciphertext twice"
		case 1: // a constant
			y, eb = gates.Constant(b), 0
			how = "second input constant"
		case 2:
			x, ea = gates.Constant(a), 0
			how = "first input constant"
		}
		name := fmt.Sprintf("%s(%v%+.4f, %v%+.4f) profile %s grid=%v, %s", g.Name, a, ea, b, eb, m.p.Name, grid, how)
		if w == 1 && i%3 == 1 { // a multiplexer of them
			z, v := y, b
			switch r.Intn(3) {
			case 0:
				v = r.Intn(2) == 0
				z = orc.ExactCT(r, key, orc.BoolMu(v)+orc.Enc(eb))
				if grid {
					z = orc.GridCT(r, key, n, orc.BoolMu(v)+orc.Enc(eb))
				}
				how += ", third another"
			case 1:
				how += ", both branches one ciphertext"
			case 2:
				z, v = x, a
				how += ", condition and third one ciphertext"
			}
			want := v
			if a {
				want = b
			}
			m.bit(fmt.Sprintf("MUX(%v%+.4f, %v%+.4f, %v) profile %s grid=%v, %s", a, ea, b, eb, v, m.p.Name, grid, how), "noisy", gates.MUX(x, y, z, m.k.CK), want)
			c.Seen("noisy|%s|MUX|%v%v%v|%d|%d|%v|%s", m.p.Name, a, b, v, int(ea*64), int(eb*64), grid, how)
			c.Count("boundary_noise_multiplexers", 1)
		}
		var out *gates.Ciphertext
		if bg, ok := batchOf[g.Name]; ok && r.Intn(4) == 0 {
			out = bg([][2]*gates.Ciphertext{{x, y}}, m.k.CK)[0]
			name = "Batch" + name
		} else {
			out = g.F(x, y, m.k.CK)
		}
		m.bit(name, "noisy", out, g.T(a, b))
		c.Seen("noisy|%s|%s|%v%v|%d|%d|%v|%s", m.p.Name, g.Name, a, b, int(ea*64), int(eb*64), grid, how)
		c.Count("boundary_noise_gates", 1)
	}
}

// pbsChain: random tables applied to their own results, and to inputs with
// noise up to half a message step.
func (m *mon) pbsChain(count int) {
	c, r, p := m.c, m.r, m.p
	n := params.GetTRGSWLv1().N
	key := m.k.SK.KeyLv0
	step := 1 / float64(2*n)
	mod := p.M
	margin := 1 / float64(4*mod)
	ev := evaluator.NewEvaluator(n)
	gen := lut.NewGenerator(mod)
	// tables generated once and used throughout
	type tab struct {
		f []int
		t *lut.LookUpTable
	}
	tabs := make([]tab, 6)
	for i := range tabs {
		f := r.Perm(mod)
		if i == 4 {
			for j := range f {
				f[j] = r.Intn(mod)
			}
		}
		if i == 3 || i == 5 { // the identity refreshes, a constant forgets
			for j := range f {
				f[j] = j
				if i == 5 {
					f[j] = f[0]
				}
			}
		}
		tabs[i] = tab{f, gen.GenLookUpTable(func(x int) int { return f[x] })}
	}
	x := r.Intn(mod)
	ct := tlwe.NewTLWELv0().EncryptLWEMessage(x, mod, params.GetTLWELv0().ALPHA, key)
	for i := 0; i < count; i++ {
		t := tabs[r.Intn(len(tabs))]
		in, kind := ct, "chain"
		if i%3 == 2 {
			x = r.Intn(mod)
			e := (margin - 3*step) * [4]float64{1, -1, 0.9, -0.5}[r.Intn(4)]
			in, kind = orc.GridCT(r, key, n, orc.MsgMu(x, mod)+orc.Enc(math.Trunc(e/step)*step)), "boundary"
		}
		want := t.f[x]
		name := fmt.Sprintf("bootstrap of %d modulus %d profile %s %s step %d", x, mod, p.Name, kind, i)
		b, ks, off := m.k.CK.BootstrappingKey, m.k.CK.KeySwitchingKey, m.k.CK.DecompositionOffset
		out := tlwe.NewTLWELv0()
		look := func(x int) int { return t.f[x] }
		via := r.Intn(8)
		switch via {
		case 0, 1:
			out = ev.BootstrapFunc(in, look, mod, b, ks, off)
		case 2:
			ev.BootstrapFuncAssign(in, look, mod, b, ks, off, out)
		case 3:
			ev.BootstrapLUTAssign(in, t.t, b, ks, off, out)
		case 4:
			copy(out.P, ev.BootstrapLUTTemp(in, t.t, b, ks, off).P)
		default:
			out = ev.BootstrapLUT(in, t.t, b, ks, off)
		}
		name += fmt.Sprintf(" entry %d", via)
		e := orc.Err(orc.Phase0(out, key), orc.MsgMu(want, mod))
		if math.Abs(e) > 9*p.Sig+1e-9 {
			c.Fail(name, "phase error %g, bound %g (want message %d, got %d)", e, 9*p.Sig, want, out.DecryptLWEMessage(mod, key))
		}
		if got := out.DecryptLWEMessage(mod, key); got != want && 9*p.Sig < margin {
			c.Fail(name, "decrypts to %d, want %d", got, want)
		}
		c.NoiseOnce("pbs "+p.Name, orc.HashT(out.P), e)
		c.Seen("pbs|%s|%d|%d|%s", p.Name, x, want, kind)
		ct, x = out, want
	}
	c.Count("pbs_outputs_"+p.Name, int64(count))
}
