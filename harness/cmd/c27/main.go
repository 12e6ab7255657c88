// C27: no operation reads or writes outside its buffers.
package main

import (
	"fmt"
	"math/rand"
	"runtime/debug"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"

	"verif/orc"
	"verif/vk"
)

type T = params.Torus

func main() {
	vk.Main(vk.Spec{
		Prop: "C27",
		Rule: "one evaluation = one operation executed with its buffers in one placement (before or after an inaccessible page, or inside a larger array of canaries), under AddressSanitizer and checkptr; afterwards every canary is read and every buffer is compared with a run on ordinary buffers; the signature is (operation, degree or profile, placement, operands)",
		Assumptions: []string{
			"an access outside a buffer is seen when it faults, meets a sanitizer redzone, changes a canary or makes a result depend on what lies around the buffer",
			"accesses to memory owned by the library that stay inside one allocation are judged by the results only",
		},
		Shards:   func(string) int { return 8 },
		Alt:      func(shard int) bool { return shard >= asanShards },
		MinEvals: 3000,
		Run:      run,
	})
}

// op is one operation on buffers taken from an arena. Whatever it returns is
// compared between the placements together with the buffers.
type op struct {
	name   string
	run    func(a *arena, r *rand.Rand) [][]T
	heavy  bool // thousands of ring operations
	random bool // draws fresh randomness: only faults and canaries are judged
}

// The first three processes run under AddressSanitizer (about a hundred times
// slower), the others with checkptr only; both use guard pages and canaries.
const asanShards = 3

func run(c *vk.C) {
	debug.SetPanicOnFault(true)
	names := []string{"128", "80", "uint1", "uint3", "uint5", "110", "uint2", "uint4"}
	if c.Shard < asanShards {
		polys(c, c.Shard, asanShards, c.Pick(4, 30))
		for i, name := range names {
			if i%asanShards == c.Shard && (!c.Quick() || i < 5) {
				cipher(c, orc.ByName(name), 0, true)
			}
		}
		return
	}
	w := c.NShards - asanShards
	polys(c, c.Shard-asanShards, w, c.Pick(30, 600))
	i := 0
	for rep := 0; rep < 2; rep++ {
		for _, name := range names {
			if i%w == c.Shard-asanShards {
				cipher(c, orc.ByName(name), rep, false)
			}
			i++
		}
	}
}

func exec(c *vk.C, o op, where string, seed int64) {
	var ref []uint64
	for p := placement(0); p < nPlace; p++ {
		if o.random && p == heap {
			continue
		}
		a := &arena{p: p}
		name := fmt.Sprintf("%s (%s, buffers %s)", o.name, where, p)
		var ret [][]T
		c.Guard(name, func() {
			debug.SetPanicOnFault(true)
			ret = o.run(a, rand.New(rand.NewSource(seed)))
		})
		if bad, n := a.canaries(); bad != "" {
			c.Fail(name, "%s", bad)
		} else {
			c.Count("canaries_read", n)
		}
		d := a.digest()
		for _, v := range ret {
			d = append(d, orc.HashT(v))
		}
		if p == heap {
			ref = d
		} else if !o.random {
			if len(d) != len(ref) {
				c.Fail(name, "%d buffers, %d in the reference run", len(d), len(ref))
			}
			for i := range d {
				if d[i] != ref[i] {
					c.Fail(name, "buffer %d of %d differs from the same operation on ordinary buffers: the result depends on where the buffers lie or on what surrounds them", i, len(d))
				}
			}
			c.Count("buffers_compared", int64(len(d)))
		}
		c.Count("guarded_buffers", int64(len(a.maps)))
		c.Count("placement: "+p.String(), 1)
		var h uint64
		if len(d) > 0 {
			h = d[0]
		}
		c.Seen("%s|%s|%d|%x", o.name, where, p, h)
		a.free()
	}
}

func polys(c *vk.C, me, of, most int) {
	type job struct{ n, rep int }
	var jobs []job
	for n := 16; n <= 4096; n <<= 1 {
		reps := most
		if n >= 1024 {
			reps /= 2
		}
		for k := 0; k < reps; k++ {
			jobs = append(jobs, job{n, k})
		}
	}
	for ji, j := range jobs {
		if ji%of != me {
			continue
		}
		e := poly.NewEvaluator(j.n)
		if j.rep%2 == 1 {
			e = e.ShallowCopy()
		}
		for _, o := range polyOps(e, j.n, j.rep) {
			exec(c, o, fmt.Sprintf("N=%d", j.n), int64(ji)*7919+c.Seed*104729)
		}
	}
}

func polyOps(e *poly.Evaluator, n, rep int) []op {
	P := func(v []T) poly.Poly { return poly.Poly{Coeffs: v} }
	F := func(v []float64) poly.FourierPoly { return poly.FourierPoly{Coeffs: v} }
	var ops []op
	add := func(name string, f func(a *arena, r *rand.Rand) [][]T) {
		ops = append(ops, op{name: name, run: f})
	}
	three := map[string]func(x, y, o poly.FourierPoly){
		"AddFourierPolyAssign": e.AddFourierPolyAssign, "SubFourierPolyAssign": e.SubFourierPolyAssign,
		"MulFourierPolyAssign": e.MulFourierPolyAssign, "MulAddFourierPolyAssign": e.MulAddFourierPolyAssign,
		"MulSubFourierPolyAssign": e.MulSubFourierPolyAssign,
	}
	for _, nm := range []string{"AddFourierPolyAssign", "SubFourierPolyAssign", "MulFourierPolyAssign", "MulAddFourierPolyAssign", "MulSubFourierPolyAssign"} {
		f := three[nm]
		add(nm, func(a *arena, r *rand.Rand) [][]T {
			f(F(a.RF(r, n)), F(a.RF(r, n)), F(a.RF(r, n)))
			return nil
		})
		add(nm+" in place", func(a *arena, r *rand.Rand) [][]T {
			x := F(a.RF(r, n))
			f(x, F(a.RF(r, n)), x)
			return nil
		})
	}
	add("AddFourierPoly, SubFourierPoly, MulFourierPoly", func(a *arena, r *rand.Rand) [][]T {
		x, y := F(a.RF(r, n)), F(a.RF(r, n))
		s, d, m := e.AddFourierPoly(x, y), e.SubFourierPoly(x, y), e.MulFourierPoly(x, y)
		a.CF(s.Coeffs)
		a.CF(d.Coeffs)
		a.CF(m.Coeffs)
		return nil
	})
	add("FloatMulFourierPolyAssign", func(a *arena, r *rand.Rand) [][]T {
		e.FloatMulFourierPolyAssign(F(a.RF(r, n)), 3.5, F(a.RF(r, n)))
		return nil
	})
	add("FloatMulAddFourierPolyAssign", func(a *arena, r *rand.Rand) [][]T {
		e.FloatMulAddFourierPolyAssign(F(a.RF(r, n)), -2.25, F(a.RF(r, n)))
		return nil
	})
	add("ToFourierPoly", func(a *arena, r *rand.Rand) [][]T {
		a.CF(e.ToFourierPoly(P(a.RT(r, n))).Coeffs)
		return nil
	})
	add("ToFourierPolyAssign", func(a *arena, r *rand.Rand) [][]T {
		e.ToFourierPolyAssign(P(a.RT(r, n)), F(a.RF(r, n)))
		return nil
	})
	add("ToPoly", func(a *arena, r *rand.Rand) [][]T {
		return [][]T{e.ToPoly(F(a.RF(r, n))).Coeffs}
	})
	for _, t := range []struct {
		name string
		f    func(poly.FourierPoly, poly.Poly)
	}{{"ToPolyAssign", e.ToPolyAssign}, {"ToPolyAssignUnsafe", e.ToPolyAssignUnsafe},
		{"ToPolyAddAssignUnsafe", e.ToPolyAddAssignUnsafe}, {"ToPolySubAssignUnsafe", e.ToPolySubAssignUnsafe}} {
		t := t
		add(t.name, func(a *arena, r *rand.Rand) [][]T {
			t.f(F(a.RF(r, n)), P(a.RT(r, n)))
			return nil
		})
	}
	add("MulPoly", func(a *arena, r *rand.Rand) [][]T {
		return [][]T{e.MulPoly(P(a.RT(r, n)), P(a.RT(r, n))).Coeffs}
	})
	for _, t := range []struct {
		name string
		f    func(x, y, o poly.Poly)
	}{{"MulPolyAssign", e.MulPolyAssign}, {"MulAddPolyAssign", e.MulAddPolyAssign}, {"MulSubPolyAssign", e.MulSubPolyAssign}} {
		t := t
		add(t.name, func(a *arena, r *rand.Rand) [][]T {
			t.f(P(a.RT(r, n)), P(a.RT(r, n)), P(a.RT(r, n)))
			return nil
		})
	}
	ks := []int{0, 1, 2, 3, n / 2, n - 1, n, n + 1, 2*n - 1, 2 * n, 3*n + 5, -1, -n, -n - 1, -2*n + 1}
	for q := 0; q < 3; q++ {
		k := ks[(rep*3+q)%len(ks)]
		add(fmt.Sprintf("PolyMulWithXKInPlace k=%d", k), func(a *arena, r *rand.Rand) [][]T {
			poly.PolyMulWithXKInPlace(a.RT(r, n), k, a.RT(r, n))
			return nil
		})
		add(fmt.Sprintf("PolyMulWithXKDirect k=%d", k), func(a *arena, r *rand.Rand) [][]T {
			e.PolyMulWithXKDirect(a.RT(r, n), k, a.RT(r, n))
			return nil
		})
		add(fmt.Sprintf("PolyMulWithXK k=%d", k), func(a *arena, r *rand.Rand) [][]T {
			return [][]T{append([]T(nil), e.PolyMulWithXK(a.RT(r, n), k)...)}
		})
	}
	for _, g := range [][2]int{{6, 3}, {10, 2}, {4, 8}, {1, 32}, {16, 2}, {8, 4}, {23, 1}, {5, 4}} {
		g := g
		add(fmt.Sprintf("DecomposePolyAssign bgbit=%d level=%d", g[0], g[1]), func(a *arena, r *rand.Rand) [][]T {
			src := a.RT(r, n)
			out := make([]poly.Poly, g[1])
			for i := range out {
				out[i] = P(a.RT(r, n))
			}
			poly.DecomposePolyAssign(src, g[0], g[1], T(r.Uint32()), out)
			return nil
		})
	}
	add("buffered products", func(a *arena, r *rand.Rand) [][]T {
		e.ClearBuffer("fpAcc")
		e.ClearBuffer("fpBcc")
		for i := 0; i < 8; i++ {
			if i%2 == 0 {
				e.CopyToDecompBuffer(a.RT(r, n), i)
				e.ToFourierPolyInBuffer(*e.GetDecompBuffer(i), i)
			} else {
				e.ToFourierPolyInBuffer(P(a.RT(r, n)), i)
			}
			e.MulAddFourierPolyAssignBuffered(i, F(a.RF(r, n)), "fpAcc")
			e.MulAddFourierPolyAssignBuffered(i, F(a.RF(r, n)), "fpBcc")
		}
		e.BufferToPolyAssign("fpAcc", a.RT(r, n))
		e.BufferToPolyAssign("fpBcc", a.RT(r, n))
		return nil
	})
	add("Copy, CopyFrom, Clear", func(a *arena, r *rand.Rand) [][]T {
		x, y := P(a.RT(r, n)), F(a.RF(r, n))
		z := F(a.RF(r, n))
		cx, cy := x.Copy(), y.Copy()
		z.CopyFrom(y)
		if r.Intn(2) == 0 {
			x.Clear()
		} else {
			y.Clear()
		}
		a.CF(cy.Coeffs)
		return [][]T{cx.Coeffs}
	})
	add("ClearTRLWEBuffer", func(a *arena, r *rand.Rand) [][]T {
		e.ClearTRLWEBuffer(a.RT(r, n), a.RT(r, n))
		return nil
	})
	add("pooled buffers filled to the end", func(a *arena, r *rand.Rand) [][]T {
		// every buffer the evaluator hands out is written over its whole length
		var out [][]T
		for i := 0; i < 5; i++ {
			x, y := e.GetTRLWEBuffer()
			z := e.GetRotationBuffer()
			if len(x) != n || len(y) != n || len(z) != n {
				panic(fmt.Sprintf("pooled buffers have lengths %d, %d, %d at degree %d", len(x), len(y), len(z), n))
			}
			orc.Fill(r, x)
			orc.Fill(r, y)
			orc.Fill(r, z)
		}
		e.ResetRotationPool()
		e.ResetTRLWEPool()
		for i := 0; i < 8; i++ {
			orc.Fill(r, e.GetDecompBuffer(i).Coeffs)
			f := e.GetDecompFFTBuffer(i).Coeffs
			for j := range f {
				f[j] = r.Float64()
			}
		}
		p := e.MulPoly(P(a.RT(r, n)), P(a.RT(r, n)))
		return append(out, p.Coeffs)
	})
	add("aligned polynomials", func(a *arena, r *rand.Rand) [][]T {
		x, y := poly.NewPolyAligned(n), poly.NewPolyAligned(n)
		f, g := poly.NewFourierPolyAligned(n), poly.NewFourierPolyAligned(n)
		if len(x.Coeffs) != n || len(f.Coeffs) != n {
			panic("aligned polynomial of another length")
		}
		orc.Fill(r, x.Coeffs)
		orc.Fill(r, y.Coeffs)
		e.ToFourierPolyAssign(x, f)
		e.ToFourierPolyAssign(y, g)
		e.MulAddFourierPolyAssign(f, g, g)
		e.ToPolyAssign(g, P(a.RT(r, n)))
		e.ToPolyAssignUnsafe(g, y)
		poly.PolyMulWithXKInPlace(x.Coeffs, n+3, y.Coeffs)
		return [][]T{y.Coeffs}
	})
	add("decomposer", func(a *arena, r *rand.Rand) [][]T {
		d := poly.NewDecomposer(n, 4)
		buf := d.GetPolyDecomposedBuffer(3)
		poly.DecomposePolyAssign(a.RT(r, n), 7, 3, T(r.Uint32()), buf)
		fb := d.GetPolyFourierDecomposedBuffer(3)
		for i := range buf {
			e.ToFourierPolyAssign(buf[i], fb[i])
		}
		e.ToPolyAssign(fb[2], P(a.RT(r, n)))
		return [][]T{buf[0].Coeffs, buf[2].Coeffs}
	})
	return ops
}

// cipher runs the ciphertext operations of one profile.
func cipher(c *vk.C, p orc.Profile, rep int, asan bool) {
	p.Use()
	n0, n := params.GetTLWELv0().N, params.GetTRGSWLv1().N
	off := cloudkey.NewCloudKeyNoKSK().DecompositionOffset
	sk := key.NewSecretKey()
	s0, s1 := sk.KeyLv0, sk.KeyLv1
	ev := evaluator.NewEvaluator(n)
	if rep == 1 {
		ev = ev.ShallowCopy()
	}
	pe := poly.NewEvaluator(n)

	// one cloud key per placement, its rows in buffers of that placement; the
	// rows repeat, since only where they lie matters here
	type gkey struct {
		a   *arena
		bsk []*trgsw.TRGSWLv1FFT
		ksk []*tlwe.TLWELv0
		ck  *cloudkey.CloudKey
	}
	mk := func(pl placement) *gkey {
		g := &gkey{a: &arena{p: pl}}
		r := c.Rand("key rows %s %d", p.Name, rep)
		distinct := make([]*trgsw.TRGSWLv1FFT, 7)
		for i := range distinct {
			x := &trgsw.TRGSWLv1FFT{}
			for range 2 * params.GetTRGSWLv1().L {
				x.TRLWEFFT = append(x.TRLWEFFT, trgsw.TRLWELv1FFT{
					A: poly.FourierPoly{Coeffs: g.a.RF(r, n)}, B: poly.FourierPoly{Coeffs: g.a.RF(r, n)}})
			}
			distinct[i] = x
		}
		for i := 0; i < n0; i++ {
			g.bsk = append(g.bsk, distinct[i%len(distinct)])
		}
		rows := make([]*tlwe.TLWELv0, 61)
		for i := range rows {
			rows[i] = &tlwe.TLWELv0{P: g.a.RT(r, n0+1)}
		}
		pr := params.GetTRGSWLv1()
		for i := 0; i < (1<<pr.BASEBIT)*pr.IKS_T*n; i++ {
			g.ksk = append(g.ksk, rows[i%len(rows)])
		}
		g.ck = &cloudkey.CloudKey{DecompositionOffset: off, BootstrappingKey: g.bsk, KeySwitchingKey: g.ksk,
			BlindRotateTestvec: &trlwe.TRLWELv1{A: g.a.RT(r, n), B: g.a.RT(r, n)}}
		return g
	}
	keys := map[placement]*gkey{}
	keyOf := func(a *arena) *gkey {
		if keys[a.p] == nil {
			keys[a.p] = mk(a.p)
		}
		return keys[a.p]
	}
	L := func(v []T) *tlwe.TLWELv0 { return &tlwe.TLWELv0{P: v} }
	ct := func(a *arena, r *rand.Rand, mu T) *tlwe.TLWELv0 { return L(a.CT(orc.ExactCT(r, s0, mu).P)) }
	ring := func(a *arena, r *rand.Rand) *trlwe.TRLWELv1 {
		return &trlwe.TRLWELv1{A: a.RT(r, n), B: a.RT(r, n)}
	}
	lv1 := func(a *arena, r *rand.Rand) *tlwe.TLWELv1 { return &tlwe.TLWELv1{P: a.RT(r, n+1)} }
	out0 := func(a *arena, r *rand.Rand) *tlwe.TLWELv0 { return L(a.RT(r, n0+1)) }

	var ops []op
	heavyNames := map[string]bool{"blind rotation": true, "bootstrap": true, "programmable bootstrap": true, "gates": true, "batch gates": true, "key switching": true, "re-encryption": true}
	add := func(name string, f func(a *arena, r *rand.Rand) [][]T) {
		ops = append(ops, op{name: name, run: f, heavy: heavyNames[name]})
	}
	rnd := func(name string, f func(a *arena, r *rand.Rand)) {
		ops = append(ops, op{name: name, random: true, heavy: heavyNames[name], run: func(a *arena, r *rand.Rand) [][]T { f(a, r); return nil }})
	}
	add("ciphertext arithmetic", func(a *arena, r *rand.Rand) [][]T {
		x, y := out0(a, r), out0(a, r)
		o := out0(a, r)
		x.AddAssign(y, o)
		x.AddAssign(y, x)
		return [][]T{x.Add(y).P, x.Sub(y).P, x.Neg().P, x.Mul(y).P, x.AddMul(y, 3).P, x.SubMul(y, 5).P}
	})
	add("gate preparation", func(a *arena, r *rand.Rand) [][]T {
		x, y := out0(a, r), out0(a, r)
		var res [][]T
		for _, f := range []func(a, b *tlwe.TLWELv0) *tlwe.TLWELv0{ev.PrepareNAND, ev.PrepareAND, ev.PrepareOR, ev.PrepareXOR} {
			res = append(res, append([]T(nil), f(x, y).P...))
		}
		return res
	})
	for _, q := range []int{0, 1, n / 3, n - 2, n - 1} {
		q := q
		add(fmt.Sprintf("SampleExtractIndex k=%d", q), func(a *arena, r *rand.Rand) [][]T {
			x := ring(a, r)
			trlwe.SampleExtractIndexAssign(x, q, lv1(a, r))
			return [][]T{trlwe.SampleExtractIndex(x, q).P}
		})
	}
	add("key switching", func(a *arena, r *rand.Rand) [][]T {
		g := keyOf(a)
		x := lv1(a, r)
		if r.Intn(3) == 0 {
			for i := range x.P {
				x.P[i] = orc.Edges[r.Intn(len(orc.Edges))]
			}
		}
		trgsw.IdentityKeySwitchingAssign(x, g.ksk, out0(a, r))
		return [][]T{trgsw.IdentityKeySwitching(x, g.ksk).P}
	})
	add("external product and CMux", func(a *arena, r *rand.Rand) [][]T {
		g := keyOf(a)
		b := g.bsk[len(g.bsk)-1-r.Intn(3)]
		x, y, o := ring(a, r), ring(a, r), ring(a, r)
		ev.ExternalProductAssign(b, x, off, o)
		ev.CMuxAssign(b, x, y, off, ring(a, r))
		v := trgsw.ExternalProductWithFFT(b, x, off, pe)
		va, vb := append([]T(nil), v.A...), append([]T(nil), v.B...)
		w := trgsw.CMUX(x, y, b, off, pe)
		return [][]T{va, vb, append([]T(nil), w.A...), append([]T(nil), w.B...)}
	})
	add("transform of a TRGSW", func(a *arena, r *rand.Rand) [][]T {
		g := trgsw.NewTRGSWLv1()
		for i := range g.TRLWE {
			g.TRLWE[i] = ring(a, r)
		}
		f := trgsw.NewTRGSWLv1FFT(g, pe)
		for _, row := range f.TRLWEFFT {
			a.CF(row.A.Coeffs)
			a.CF(row.B.Coeffs)
		}
		h := trlwe.NewTRLWELv1FFT(ring(a, r), pe)
		a.CF(h.A)
		a.CF(h.B)
		return nil
	})
	add("blind rotation", func(a *arena, r *rand.Rand) [][]T {
		g := keyOf(a)
		x := ct(a, r, T(r.Uint32()))
		ev.BlindRotateAssign(x, ring(a, r), g.bsk, off, ring(a, r))
		v := trgsw.BlindRotate(x, ring(a, r), g.bsk, off, pe)
		return [][]T{append([]T(nil), v.A...), append([]T(nil), v.B...)}
	})
	add("bootstrap", func(a *arena, r *rand.Rand) [][]T {
		g := keyOf(a)
		x := ct(a, r, T(r.Uint32()))
		ev.BootstrapAssign(x, g.ck.BlindRotateTestvec, g.bsk, g.ksk, off, out0(a, r))
		v := ev.Bootstrap(x, g.ck.BlindRotateTestvec, g.bsk, g.ksk, off)
		return [][]T{append([]T(nil), v.P...)}
	})
	add("programmable bootstrap", func(a *arena, r *rand.Rand) [][]T {
		g := keyOf(a)
		m := p.M
		tab := &lut.LookUpTable{Poly: ring(a, r)}
		lut.NewGenerator(m).GenLookUpTableAssign(func(v int) int { return m - 1 - v }, tab)
		x := ct(a, r, orc.MsgMu(r.Intn(m), m))
		ev.BootstrapLUTAssign(x, tab, g.bsk, g.ksk, off, out0(a, r))
		ev.BootstrapFuncAssign(x, func(v int) int { return v * v % m }, m, g.bsk, g.ksk, off, out0(a, r))
		cp := &lut.LookUpTable{Poly: ring(a, r)}
		cp.CopyFrom(tab)
		tab.Clear()
		return [][]T{cp.Copy().Poly.B}
	})
	add("gates", func(a *arena, r *rand.Rand) [][]T {
		g := keyOf(a)
		x, y, z := ct(a, r, orc.BoolMu(r.Intn(2) == 0)), ct(a, r, orc.BoolMu(r.Intn(2) == 0)), ct(a, r, orc.BoolMu(r.Intn(2) == 0))
		gt := orc.Gates2[r.Intn(len(orc.Gates2))]
		res := [][]T{gt.F(x, y, g.ck).P, gates.NOT(x).P, gates.Copy(y).P}
		if r.Intn(2) == 0 {
			res = append(res, gates.MUX(x, y, z, g.ck).P)
		}
		return res
	})
	add("batch gates", func(a *arena, r *rand.Rand) [][]T {
		g := keyOf(a)
		var in [][2]*gates.Ciphertext
		for i := 0; i < 3; i++ {
			in = append(in, [2]*gates.Ciphertext{ct(a, r, orc.BoolMu(r.Intn(2) == 0)), ct(a, r, orc.BoolMu(r.Intn(2) == 0))})
		}
		var res [][]T
		for _, v := range orc.Batches[r.Intn(len(orc.Batches))].F(in, g.ck) {
			res = append(res, v.P)
		}
		return res
	})
	rnd("encryption into given buffers", func(a *arena, r *rand.Rand) {
		k0, k1 := a.CT(s0), a.CT(s1)
		x := out0(a, r)
		x.EncryptBool(true, params.GetTLWELv0().ALPHA, k0)
		x.DecryptBool(k0)
		x = out0(a, r)
		x.EncryptF64(0.3, 1e-5, k0)
		x = out0(a, r)
		x.EncryptLWEMessage(1, p.M, 1e-6, k0)
		x.DecryptLWEMessage(p.M, k0)
		y := lv1(a, r)
		y.EncryptBool(false, 1e-8, k1)
		y.DecryptBool(k1)
		y.EncryptF64(0.1, 1e-8, k1)
		z := ring(a, r)
		bs := make([]bool, n)
		bs[n-1] = true
		z.EncryptBool(bs, 1e-8, k1, pe)
		z.DecryptBool(k1, pe)
		z.EncryptF64(make([]float64, n), 1e-8, k1, pe)
		trgsw.NewTRGSWLv1().EncryptTorus(1, 1e-8, k1, pe)
	})
	rnd("re-encryption", func(a *arena, r *rand.Rand) {
		k0, k1 := a.CT(s0), a.T(n0)
		for i := range k1 {
			k1[i] = T(r.Intn(2))
		}
		rk := proxyreenc.NewProxyReencryptionKeySymmetricWithParams(k0, k1, 1e-6, []int{2, 1, 4}[r.Intn(3)], 3)
		x := ct(a, r, orc.BoolMu(true))
		if o := proxyreenc.ReencryptTLWELv0(x, rk); len(o.P) != n0+1 {
			panic("re-encrypted ciphertext of another length")
		}
		pk := proxyreenc.NewPublicKeyLv0WithParams(k1, 20, 1e-6)
		pk.EncryptBool(true, 1e-6)
		pk.EncryptF64(0.25, 1e-6)
	})
	if asan { // one whole bootstrap on buffers with redzones, the rest without
		for _, o := range ops {
			if o.name == "bootstrap" && (p.Name == "128" || p.Name == "uint1" || !c.Quick()) {
				c.Guard(o.name, func() { o.run(&arena{}, c.Rand("asan bootstrap")) })
				c.Count("bootstraps_under_asan", 2)
				c.Seen("asan bootstrap %s", p.Name)
			}
		}
	}
	for round := 0; round < c.Pick(2, 12); round++ {
		for oi, o := range ops {
			if o.heavy && (asan || c.Quick() && round > 0) {
				continue
			}
			exec(c, o, "profile "+p.Name, int64(rep*1000+round*100+oi)+c.Seed*1000003)
		}
	}
	for pl, g := range keys {
		if bad, _ := g.a.canaries(); bad != "" {
			c.Fail("cloud key rows ("+pl.String()+") at profile "+p.Name, "%s", bad)
		}
		c.Count("guarded_key_rows", int64(len(g.a.maps)+len(g.a.et)+len(g.a.ef)))
		g.a.free()
	}
}
