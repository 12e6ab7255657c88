// C09: evaluator results do not depend on the evaluator's history.
//
// A set of probe calls is answered once by brand-new evaluators. The same calls
// are then repeated on evaluators with random histories (other operations,
// other keys, other tables, resets, copies) and must give the same ciphertexts
// bit for bit.
package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"

	"verif/orc"
	"verif/vk"
)

type T = params.Torus

var shardProfiles = []string{"128", "uint2", "uint2", "80", "uint3", "uint4", "uint5", "110", "uint1", "uint2"}

func main() {
	vk.Main(vk.Spec{
		Prop: "C09",
		Rule: "one evaluation = one probe call repeated on an evaluator with a history and compared bit for bit with the answer of a brand-new evaluator; signature (profile, probe, kind of evaluator, last operations of its history)",
		Assumptions: []string{
			"the same build computes the same floating point results for the same call",
		},
		Shards:   func(string) int { return len(shardProfiles) },
		MinEvals: 1000,
		Run:      run,
	})
}

// probe is a call whose result is compared.
type probe struct {
	name string
	cost int
	f    func(ev *evaluator.Evaluator, pe *poly.Evaluator) []T
	want []T
}

type subject struct {
	ev   *evaluator.Evaluator
	pe   *poly.Evaluator
	kind string
	hist []string
}

func cat(v ...[]T) []T {
	var o []T
	for _, x := range v {
		o = append(o, x...)
	}
	return o
}

type world struct {
	p    orc.Profile
	r    *rand.Rand
	n    int
	ks   [2]*orc.Keys
	cts  []*tlwe.TLWELv0
	l1   []*tlwe.TLWELv1
	rks  [2]*proxyreenc.ProxyReencryptionKey
	tvs  []*trlwe.TRLWELv1
	luts []*lut.LookUpTable
	ring []*trlwe.TRLWELv1
	gsw  []*trgsw.TRGSWLv1FFT
	pol  [][]T
	fp   []poly.FourierPoly
}

func run(c *vk.C) {
	p := orc.ByName(shardProfiles[c.Shard])
	w := &world{p: p, r: c.Rand("c09")}
	r := w.r
	w.ks[0] = orc.NewKeys(p)
	w.ks[1] = orc.NewKeys(p)
	n := params.GetTRGSWLv1().N
	w.n = n
	alpha := params.GetTLWELv0().ALPHA
	for i := 0; i < 10; i++ {
		var ct *tlwe.TLWELv0
		switch i {
		case 0, 1, 2, 3:
			ct = tlwe.NewTLWELv0().EncryptBool(i%2 == 0, alpha, w.ks[0].SK.KeyLv0)
		case 4:
			ct = gates.Constant(true)
		case 5:
			ct = tlwe.NewTLWELv0()
			for j := range ct.P {
				ct.P[j] = orc.Edges[r.Intn(len(orc.Edges))]
			}
		case 6:
			ct = tlwe.NewTLWELv0().EncryptLWEMessage(p.M-1, p.M, alpha, w.ks[0].SK.KeyLv0)
		default:
			ct = tlwe.NewTLWELv0()
			orc.Fill(r, ct.P)
		}
		w.cts = append(w.cts, ct)
	}
	for i := 0; i < 4; i++ {
		x := tlwe.NewTLWELv1()
		if i == 0 {
			x.EncryptBool(true, params.GetTLWELv1().ALPHA, w.ks[0].SK.KeyLv1)
		} else {
			orc.Mixed(r, x.P)
		}
		w.l1 = append(w.l1, x)
	}
	for i := range w.rks {
		w.rks[i] = proxyreenc.NewProxyReencryptionKeySymmetricWithParams(w.ks[i].SK.KeyLv0, w.ks[1-i].SK.KeyLv0, alpha, 2, 3)
	}
	tv := trlwe.NewTRLWELv1()
	orc.Fill(r, tv.A)
	orc.Fill(r, tv.B)
	w.tvs = []*trlwe.TRLWELv1{w.ks[0].CK.BlindRotateTestvec, tv}
	for _, m := range []int{2, p.M, 3} {
		w.luts = append(w.luts, lut.NewGenerator(m).GenLookUpTable(func(x int) int { return (x + 1) % m }))
	}
	pe0 := poly.NewEvaluator(n)
	for i := 0; i < 6; i++ {
		x := trlwe.NewTRLWELv1()
		orc.Fill(r, x.A)
		orc.Fill(r, x.B)
		if i == 4 {
			x = trlwe.NewTRLWELv1()
		}
		w.ring = append(w.ring, x)
	}
	for i := 0; i < 2; i++ {
		w.gsw = append(w.gsw, trgsw.NewTRGSWLv1FFT(trgsw.NewTRGSWLv1().EncryptTorus(T(i), params.BSKAlpha(), w.ks[0].SK.KeyLv1, pe0), pe0))
	}
	for i := 0; i < 4; i++ {
		v := make([]T, n)
		orc.Fill(r, v)
		if i == 1 || i == 2 { // small
			for j := range v {
				v[j] = T(int32(r.Intn(129) - 64))
			}
		}
		w.pol = append(w.pol, v)
		w.fp = append(w.fp, pe0.ToFourierPoly(poly.Poly{Coeffs: append([]T(nil), v...)}))
	}
	probes := w.probes()
	noise := w.noiseOps(alpha)
	for i := range probes {
		q := &probes[i]
		c.Guard("probe "+q.name+" "+p.Name, func() {
			q.want = append([]T(nil), q.f(evaluator.NewEvaluator(n), poly.NewEvaluator(n))...)
		})
	}
	base := evaluator.NewEvaluator(n)
	basep := poly.NewEvaluator(n)
	subs := []*subject{
		{base, basep, "used", nil},
		{evaluator.NewEvaluator(n), poly.NewEvaluator(n), "used", nil},
		{base.ShallowCopy(), basep.ShallowCopy(), "copy", nil},
	}
	budget := c.Pick(260, 9000)
	if n == 2048 {
		budget = c.Pick(110, 3000)
	}
	if n == 512 {
		budget = c.Pick(480, 15000)
	}
	if n == 512 || !c.Quick() {
		// one evaluator has worked for long: beyond what 8 and 16 bits count
		v := subs[1]
		v.kind = "long used"
		c.Guard("long use "+p.Name, func() {
			k := w.ks[0].CK
			boot := func(e *evaluator.Evaluator, i int) []T {
				return e.Bootstrap(w.cts[i%len(w.cts)], w.tvs[0], k.BootstrappingKey, k.KeySwitchingKey, k.DecompositionOffset).P
			}
			wantBoot := append([]T(nil), boot(evaluator.NewEvaluator(n), 0)...)
			at := func(what string, i int, got, want []T) {
				if !orc.Eq(got, want) {
					c.Fail("long use "+p.Name, "%s %d of one evaluator differs from the answer of a new one: %s", what, i, orc.Diff(got, want))
				}
			}
			for i := 0; i < 300; i++ {
				if i%2 == 0 {
					noise[i/2%5].f(v.ev, v.pe)
				} else {
					at("bootstrap", i, boot(v.ev, 0), wantBoot)
				}
			}
			out := trlwe.NewTRLWELv1()
			x, y, z := poly.NewPoly(n), poly.NewPoly(n), poly.NewFourierPoly(n)
			orc.Mixed(r, x.Coeffs)
			var wantA, wantB [6][]T
			for i := range wantA {
				evaluator.NewEvaluator(n).ExternalProductAssign(w.gsw[i%2], w.ring[i], k.DecompositionOffset, out)
				wantA[i], wantB[i] = append([]T(nil), out.A...), append([]T(nil), out.B...)
			}
			fresh := poly.NewEvaluator(n)
			wantMul := fresh.MulPoly(x, poly.Poly{Coeffs: w.pol[1]}).Coeffs
			total := 1<<16 + 5000
			for i := 0; i < total; i++ {
				v.ev.ExternalProductAssign(w.gsw[i%2], w.ring[i%6], k.DecompositionOffset, out)
				at("external product", i, out.A, wantA[i%6])
				at("external product", i, out.B, wantB[i%6])
				for _, e := range []*poly.Evaluator{v.pe, v.ev.PolyEvaluator} {
					kx := i % (2 * n)
					poly.PolyMulWithXKInPlace(x.Coeffs, kx, y.Coeffs)
					at("rotation", i, e.PolyMulWithXK(x.Coeffs, kx), y.Coeffs)
					e.GetTRLWEBuffer()
					if i%2 == 0 {
						e.ToFourierPolyAssign(x, z)
						e.ToPolyAssign(z, y)
						at("transform", i, y.Coeffs, x.Coeffs)
					} else {
						e.MulPolyAssign(x, poly.Poly{Coeffs: w.pol[1]}, y)
						at("product", i, y.Coeffs, wantMul)
					}
				}
			}
			c.Count("operations_of_long_used_evaluators_compared", int64(total*7))
		})
		v.hist = append(v.hist, "long use")
		c.Count("evaluators_used_beyond_65536_operations", 1)
	}
	used := 0
	order := r.Perm(len(probes))
	for i := 0; used < budget; i++ {
		s := subs[r.Intn(len(subs))]
		switch x := r.Intn(30); {
		case x == 0 && i > 3:
			j := r.Intn(len(subs))
			k := subs[r.Intn(len(subs))]
			subs[j] = &subject{k.ev.ShallowCopy(), k.pe.ShallowCopy(), "copy of " + strings.TrimPrefix(k.kind, "copy of "), append([]string(nil), k.hist...)}
			continue
		case x == 1:
			s.ev.ResetBuffers()
			s.pe.ResetRotationPool()
			s.pe.ResetTRLWEPool()
			s.hist = append(s.hist, "reset")
			continue
		}
		// some history
		for k := r.Intn(4); k > 0; k-- {
			o := noise[r.Intn(len(noise))]
			for t := 0; t < 2 && o.cost > 0; t++ {
				o = noise[r.Intn(len(noise))]
			}
			o.f(s.ev, s.pe)
			s.hist = append(s.hist, o.name)
			used += o.cost
		}
		q := probes[r.Intn(len(probes))]
		if i < len(order) {
			q = probes[order[i]]
		} else if q.cost > 0 {
			q = probes[r.Intn(len(probes))]
		}
		used += q.cost
		for k := r.Intn(3); k > 0 && (i < len(order)+10 || r.Intn(3) == 0); k-- {
			// the very same call, but on other contents of one argument
			what, restore := w.change(r)
			c.Guard("changed "+what+" "+q.name, func() { q.f(s.ev, s.pe) })
			restore()
			s.hist = append(s.hist, q.name+" with other "+what)
			used += q.cost
			c.Count("same_call_other_"+what, 1)
		}
		last := strings.Join(s.hist[max(0, len(s.hist)-5):], " > ")
		name := fmt.Sprintf("%s on a %s evaluator after %s, profile=%s", q.name, s.kind, last, p.Name)
		c.Guard(name, func() {
			got := q.f(s.ev, s.pe)
			if !orc.Eq(got, q.want) {
				c.Fail(name, "differs from the answer of a new evaluator: %s", orc.Diff(got, q.want))
			}
		})
		s.hist = append(s.hist, q.name)
		c.Seen("%s|%s|%s|%s", p.Name, q.name, s.kind, last)
		c.Count("probe_"+q.name, 1)
	}
	c.Count("histories", int64(len(subs)))
}

// change overwrites the contents of all arguments of one kind in place (the
// objects stay the same) and returns what undoes it.
func (w *world) change(r *rand.Rand) (string, func()) {
	var vs [][]T
	var fs []poly.FourierPoly
	what := ""
	switch r.Intn(6) {
	case 0:
		what = "table"
		for _, t := range w.tvs {
			vs = append(vs, t.A, t.B)
		}
		for _, t := range w.luts {
			vs = append(vs, t.Poly.A, t.Poly.B)
		}
	case 1:
		what = "ciphertext"
		for _, t := range w.cts {
			vs = append(vs, t.P)
		}
		for _, t := range w.l1 {
			vs = append(vs, t.P)
		}
	case 2:
		what = "mask" // the constant term stays
		for _, t := range w.cts {
			vs = append(vs, t.P[:len(t.P)-1])
		}
		for _, t := range w.l1 {
			vs = append(vs, t.P[:len(t.P)-1])
		}
	case 3:
		what = "ring"
		for _, t := range w.ring {
			vs = append(vs, t.A, t.B)
		}
	case 4:
		what = "polynomial"
		vs = append(vs, w.pol...)
		fs = append(fs, w.fp...)
	case 5:
		what = "gadget"
		for _, g := range w.gsw {
			for i := range g.TRLWEFFT {
				fs = append(fs, g.TRLWEFFT[i].A, g.TRLWEFFT[i].B)
			}
		}
	}
	var olds [][]T
	var oldf [][]float64
	mode := r.Intn(10)
	// all of it, or only a part: what tells "the same as before" from a sample
	// of the contents must not notice
	part := func(n int) (lo, hi int) {
		switch mode {
		case 1: // all but the ends
			return 1, n - 1
		case 2: // the middle
			return n / 4, 3 * n / 4
		case 3: // the end
			return n / 2, n
		case 4: // the beginning
			return 0, n / 2
		case 5: // one place
			i := r.Intn(n)
			return i, i + 1
		}
		return 0, n
	}
	odd := func(m, k int) bool { return m >= 6 && m < 8 && k%2 == m%2 }
	step := 1 // every other place
	first := 0
	if mode >= 8 {
		step, first = 2, mode-8
	}
	for k, v := range vs {
		olds = append(olds, append([]T(nil), v...))
		if odd(mode, k) { // every other vector (mask or body)
			continue
		}
		lo, hi := part(len(v))
		for i := lo + first; i < hi; i += step {
			v[i] = T(r.Uint32())
		}
	}
	for k, f := range fs {
		oldf = append(oldf, append([]float64(nil), f.Coeffs...))
		if odd(mode, k) {
			continue
		}
		lo, hi := part(len(f.Coeffs))
		for i := lo + first; i < hi; i += step {
			f.Coeffs[i] = r.NormFloat64() * 1e6
		}
	}
	what += fmt.Sprintf(" (%s)", []string{"all", "inside", "middle", "end", "beginning", "one place", "even parts", "odd parts", "even places", "odd places"}[mode])
	return what, func() {
		for i, v := range vs {
			copy(v, olds[i])
		}
		for i, f := range fs {
			copy(f.Coeffs, oldf[i])
		}
	}
}

type noiseOp struct {
	name string
	cost int
	f    func(ev *evaluator.Evaluator, pe *poly.Evaluator)
}

// noiseOps fill every buffer with something else.
func (w *world) noiseOps(alpha float64) []noiseOp {
	r, n := w.r, w.n
	x0 := tlwe.NewTLWELv1()
	rct := func() *tlwe.TLWELv0 {
		if r.Intn(3) == 0 {
			return w.cts[r.Intn(len(w.cts))]
		}
		ct := tlwe.NewTLWELv0()
		orc.Mixed(r, ct.P)
		return ct
	}
	rring := func() *trlwe.TRLWELv1 {
		x := trlwe.NewTRLWELv1()
		orc.Mixed(r, x.A)
		orc.Mixed(r, x.B)
		return x
	}
	rpol := func() poly.Poly {
		v := make([]T, n)
		orc.Mixed(r, v)
		return poly.Poly{Coeffs: v}
	}
	return []noiseOp{
		{"bootstrap with another key", 1, func(ev *evaluator.Evaluator, pe *poly.Evaluator) {
			k := w.ks[1].CK
			ev.Bootstrap(rct(), rring(), k.BootstrappingKey, k.KeySwitchingKey, k.DecompositionOffset)
		}},
		{"bootstrap", 1, func(ev *evaluator.Evaluator, pe *poly.Evaluator) {
			k := w.ks[0].CK
			ev.Bootstrap(rct(), w.tvs[r.Intn(2)], k.BootstrappingKey, k.KeySwitchingKey, k.DecompositionOffset)
		}},
		{"table bootstrap", 1, func(ev *evaluator.Evaluator, pe *poly.Evaluator) {
			k := w.ks[r.Intn(2)].CK
			ev.BootstrapLUTTemp(rct(), w.luts[r.Intn(len(w.luts))], k.BootstrappingKey, k.KeySwitchingKey, k.DecompositionOffset)
		}},
		{"function bootstrap", 1, func(ev *evaluator.Evaluator, pe *poly.Evaluator) {
			k := w.ks[r.Intn(2)].CK
			ev.BootstrapFunc(rct(), func(x int) int { return 1 - x }, 2+r.Intn(5), k.BootstrappingKey, k.KeySwitchingKey, k.DecompositionOffset)
		}},
		{"blind rotation", 1, func(ev *evaluator.Evaluator, pe *poly.Evaluator) {
			k := w.ks[r.Intn(2)].CK
			ev.BlindRotateAssign(rct(), rring(), k.BootstrappingKey, k.DecompositionOffset, trlwe.NewTRLWELv1())
		}},
		{"external product", 0, func(ev *evaluator.Evaluator, pe *poly.Evaluator) {
			ev.ExternalProductAssign(w.gsw[r.Intn(2)], rring(), w.ks[0].CK.DecompositionOffset, trlwe.NewTRLWELv1())
			trgsw.ExternalProductWithFFT(w.gsw[r.Intn(2)], rring(), w.ks[0].CK.DecompositionOffset, pe)
		}},
		{"external product of zero", 0, func(ev *evaluator.Evaluator, pe *poly.Evaluator) {
			ev.ExternalProductAssign(w.gsw[r.Intn(2)], trlwe.NewTRLWELv1(), w.ks[0].CK.DecompositionOffset, trlwe.NewTRLWELv1())
			trgsw.ExternalProductWithFFT(w.gsw[r.Intn(2)], trlwe.NewTRLWELv1(), w.ks[0].CK.DecompositionOffset, pe)
		}},
		{"multiplexer", 0, func(ev *evaluator.Evaluator, pe *poly.Evaluator) {
			ev.CMuxAssign(w.gsw[r.Intn(2)], rring(), rring(), w.ks[0].CK.DecompositionOffset, trlwe.NewTRLWELv1())
			trgsw.CMUX(rring(), rring(), w.gsw[r.Intn(2)], w.ks[0].CK.DecompositionOffset, pe)
		}},
		{"old blind rotation", 1, func(ev *evaluator.Evaluator, pe *poly.Evaluator) {
			k := w.ks[r.Intn(2)].CK
			trgsw.BlindRotate(rct(), rring(), k.BootstrappingKey, k.DecompositionOffset, pe)
		}},
		{"polynomial products", 0, func(ev *evaluator.Evaluator, pe *poly.Evaluator) {
			for _, e := range []*poly.Evaluator{pe, ev.PolyEvaluator} {
				e.MulPoly(rpol(), rpol())
				e.MulAddPolyAssign(rpol(), rpol(), rpol())
				e.MulSubPolyAssign(rpol(), rpol(), rpol())
			}
		}},
		{"rotations", 0, func(ev *evaluator.Evaluator, pe *poly.Evaluator) {
			for _, e := range []*poly.Evaluator{pe, ev.PolyEvaluator} {
				for k := r.Intn(5); k > 0; k-- {
					e.PolyMulWithXK(rpol().Coeffs, r.Intn(4*n))
					e.GetTRLWEBuffer()
				}
			}
		}},
		{"transforms", 0, func(ev *evaluator.Evaluator, pe *poly.Evaluator) {
			for _, e := range []*poly.Evaluator{pe, ev.PolyEvaluator} {
				e.ToPoly(e.ToFourierPoly(rpol()))
				e.ToFourierPolyInBuffer(rpol(), r.Intn(6))
				e.CopyToDecompBuffer(rpol().Coeffs, r.Intn(6))
				e.MulAddFourierPolyAssignBuffered(r.Intn(6), w.fp[r.Intn(len(w.fp))], []string{"fpAcc", "fpBcc"}[r.Intn(2)])
			}
		}},
		{"ring encryption", 0, func(ev *evaluator.Evaluator, pe *poly.Evaluator) {
			x := trlwe.NewTRLWELv1().EncryptBool(make([]bool, n), alpha, w.ks[0].SK.KeyLv1, pe)
			x.DecryptBool(w.ks[0].SK.KeyLv1, ev.PolyEvaluator)
		}},
		{"key switches", 0, func(ev *evaluator.Evaluator, pe *poly.Evaluator) {
			x := w.l1[r.Intn(len(w.l1))]
			if r.Intn(2) == 0 {
				x = tlwe.NewTLWELv1()
				orc.Mixed(r, x.P)
			}
			trgsw.IdentityKeySwitching(x, w.ks[r.Intn(2)].CK.KeySwitchingKey)
			trlwe.SampleExtractIndexAssign(rring(), r.Intn(n), x0)
			proxyreenc.ReencryptTLWELv0(rct(), w.rks[r.Intn(2)])
		}},
		{"gates", 1, func(ev *evaluator.Evaluator, pe *poly.Evaluator) {
			k := w.ks[r.Intn(2)].CK
			orc.Gates2[r.Intn(len(orc.Gates2))].F(rct(), rct(), k)
		}},
		{"batch", 3, func(ev *evaluator.Evaluator, pe *poly.Evaluator) {
			k := w.ks[r.Intn(2)].CK
			in := make([][2]*gates.Ciphertext, 1+r.Intn(4))
			for i := range in {
				in[i] = [2]*gates.Ciphertext{rct(), rct()}
			}
			orc.Batches[r.Intn(len(orc.Batches))].F(in, k)
		}},
	}
}

func (w *world) probes() []probe {
	r, n := w.r, w.n
	k := w.ks[0].CK
	bsk, ksk, do := k.BootstrappingKey, k.KeySwitchingKey, k.DecompositionOffset
	var ps []probe
	def := func(name string, cost int, f func(ev *evaluator.Evaluator, pe *poly.Evaluator) []T) {
		ps = append(ps, probe{name: name, cost: cost, f: f})
	}
	dirtyL := func() *tlwe.TLWELv0 {
		ct := tlwe.NewTLWELv0()
		orc.Mixed(r, ct.P)
		return ct
	}
	dirtyR := func() *trlwe.TRLWELv1 {
		x := trlwe.NewTRLWELv1()
		orc.Mixed(r, x.A)
		orc.Mixed(r, x.B)
		return x
	}
	for i := 0; i < len(w.cts); i += 2 {
		ct := w.cts[i]
		tv := w.tvs[(i/2)%2]
		lt := w.luts[i%len(w.luts)]
		x := fmt.Sprintf("(ct%d)", i)
		def("Bootstrap"+x, 1, func(ev *evaluator.Evaluator, _ *poly.Evaluator) []T { return ev.Bootstrap(ct, tv, bsk, ksk, do).P })
		def("BootstrapAssign"+x, 1, func(ev *evaluator.Evaluator, _ *poly.Evaluator) []T {
			o := dirtyL()
			ev.BootstrapAssign(ct, tv, bsk, ksk, do, o)
			return o.P
		})
		def("BootstrapLUTAssign"+x, 1, func(ev *evaluator.Evaluator, _ *poly.Evaluator) []T {
			o := dirtyL()
			ev.BootstrapLUTAssign(ct, lt, bsk, ksk, do, o)
			return o.P
		})
		def("BootstrapLUT"+x, 1, func(ev *evaluator.Evaluator, _ *poly.Evaluator) []T { return ev.BootstrapLUT(ct, lt, bsk, ksk, do).P })
		def("BootstrapLUTTemp"+x, 1, func(ev *evaluator.Evaluator, _ *poly.Evaluator) []T {
			return ev.BootstrapLUTTemp(ct, lt, bsk, ksk, do).P
		})
		f := func(v int) int { return v*3 + 1 }
		def("BootstrapFunc"+x, 1, func(ev *evaluator.Evaluator, _ *poly.Evaluator) []T {
			return ev.BootstrapFunc(ct, f, 4, bsk, ksk, do).P
		})
		def("BootstrapFuncAssign"+x, 1, func(ev *evaluator.Evaluator, _ *poly.Evaluator) []T {
			o := dirtyL()
			ev.BootstrapFuncAssign(ct, f, 4, bsk, ksk, do, o)
			return o.P
		})
		def("BlindRotateAssign"+x, 1, func(ev *evaluator.Evaluator, _ *poly.Evaluator) []T {
			o := dirtyR()
			ev.BlindRotateAssign(ct, tv, bsk, do, o)
			return cat(o.A, o.B)
		})
		def("trgsw.BlindRotate"+x, 1, func(_ *evaluator.Evaluator, pe *poly.Evaluator) []T {
			o := trgsw.BlindRotate(ct, tv, bsk, do, pe)
			return cat(o.A, o.B)
		})
	}
	for i := 0; i < len(w.ring); i++ {
		a, b, g := w.ring[i], w.ring[(i+1)%len(w.ring)], w.gsw[i%2]
		x := fmt.Sprintf("(ring%d)", i)
		def("ExternalProductAssign"+x, 0, func(ev *evaluator.Evaluator, _ *poly.Evaluator) []T {
			o := dirtyR()
			ev.ExternalProductAssign(g, a, do, o)
			return cat(o.A, o.B)
		})
		def("CMuxAssign"+x, 0, func(ev *evaluator.Evaluator, _ *poly.Evaluator) []T {
			o := dirtyR()
			ev.CMuxAssign(g, a, b, do, o)
			return cat(o.A, o.B)
		})
		def("trgsw.ExternalProductWithFFT"+x, 0, func(_ *evaluator.Evaluator, pe *poly.Evaluator) []T {
			o := trgsw.ExternalProductWithFFT(g, a, do, pe)
			return cat(o.A, o.B)
		})
		def("trgsw.CMUX"+x, 0, func(_ *evaluator.Evaluator, pe *poly.Evaluator) []T {
			o := trgsw.CMUX(a, b, g, do, pe)
			return cat(o.A, o.B)
		})
	}
	for i := range w.pol {
		a, b := w.pol[i], w.pol[(i+1)%len(w.pol)]
		x := fmt.Sprintf("(poly%d)", i)
		pa, pb := poly.Poly{Coeffs: a}, poly.Poly{Coeffs: b}
		def("MulPoly"+x, 0, func(_ *evaluator.Evaluator, pe *poly.Evaluator) []T { return pe.MulPoly(pa, pb).Coeffs })
		def("MulPolyAssign"+x, 0, func(ev *evaluator.Evaluator, _ *poly.Evaluator) []T {
			o := poly.NewPoly(n)
			orc.Mixed(r, o.Coeffs)
			ev.PolyEvaluator.MulPolyAssign(pa, pb, o)
			return o.Coeffs
		})
		acc := w.pol[(i+2)%len(w.pol)]
		def("MulAddPolyAssign"+x, 0, func(_ *evaluator.Evaluator, pe *poly.Evaluator) []T {
			o := poly.Poly{Coeffs: append([]T(nil), acc...)}
			pe.MulAddPolyAssign(pa, pb, o)
			return o.Coeffs
		})
		def("MulSubPolyAssign"+x, 0, func(_ *evaluator.Evaluator, pe *poly.Evaluator) []T {
			o := poly.Poly{Coeffs: append([]T(nil), acc...)}
			pe.MulSubPolyAssign(pa, pb, o)
			return o.Coeffs
		})
		def("ToPoly"+x, 0, func(_ *evaluator.Evaluator, pe *poly.Evaluator) []T { return pe.ToPoly(w.fp[i]).Coeffs })
		def("ToPolyAssign"+x, 0, func(ev *evaluator.Evaluator, _ *poly.Evaluator) []T {
			o := poly.NewPoly(n)
			orc.Mixed(r, o.Coeffs)
			ev.PolyEvaluator.ToPolyAssign(w.fp[i], o)
			return o.Coeffs
		})
		kx := r.Intn(4*n) - n
		def("PolyMulWithXK"+x, 0, func(_ *evaluator.Evaluator, pe *poly.Evaluator) []T {
			return pe.PolyMulWithXK(a, kx)
		})
		def("PolyMulWithXKDirect"+x, 0, func(_ *evaluator.Evaluator, pe *poly.Evaluator) []T {
			o := make([]T, n)
			orc.Mixed(r, o)
			pe.PolyMulWithXKDirect(a, kx, o)
			return o
		})
		def("trlwe.DecryptBool"+x, 0, func(_ *evaluator.Evaluator, pe *poly.Evaluator) []T {
			ct := &trlwe.TRLWELv1{A: a, B: b}
			var o []T
			for _, v := range ct.DecryptBool(w.ks[0].SK.KeyLv1, pe) {
				if v {
					o = append(o, 1)
				} else {
					o = append(o, 0)
				}
			}
			return o
		})
	}
	// operations without an evaluator
	for i, l1 := range w.l1 {
		l1 := l1
		x := fmt.Sprintf("(l1 %d)", i)
		ring, ct := w.ring[i%len(w.ring)], w.cts[(2*i+1)%len(w.cts)]
		ix := []int{0, 1, n - 1, r.Intn(n)}[i%4]
		def("IdentityKeySwitching"+x, 0, func(*evaluator.Evaluator, *poly.Evaluator) []T {
			return trgsw.IdentityKeySwitching(l1, ksk).P
		})
		def("IdentityKeySwitchingAssign"+x, 0, func(*evaluator.Evaluator, *poly.Evaluator) []T {
			o := dirtyL()
			trgsw.IdentityKeySwitchingAssign(l1, ksk, o)
			return o.P
		})
		def("SampleExtractIndex"+x, 0, func(*evaluator.Evaluator, *poly.Evaluator) []T {
			return trlwe.SampleExtractIndex(ring, ix).P
		})
		def("SampleExtractIndexAssign"+x, 0, func(*evaluator.Evaluator, *poly.Evaluator) []T {
			o := tlwe.NewTLWELv1()
			orc.Mixed(r, o.P)
			trlwe.SampleExtractIndexAssign(ring, ix, o)
			return o.P
		})
		def("ReencryptTLWELv0"+x, 0, func(*evaluator.Evaluator, *poly.Evaluator) []T {
			return proxyreenc.ReencryptTLWELv0(ct, w.rks[0]).P
		})
	}
	def("BatchBlindRotate", 2, func(*evaluator.Evaluator, *poly.Evaluator) []T {
		var o []T
		for _, x := range trgsw.BatchBlindRotate(w.cts[3:5], w.tvs[1], bsk, do) {
			o = append(o, cat(x.A, x.B)...)
		}
		return o
	})
	// operations on the library's own shared evaluators
	for i, g := range orc.Gates2 {
		a, b := w.cts[i%len(w.cts)], w.cts[(i+1)%len(w.cts)]
		g := g
		def("gates."+g.Name, 1, func(*evaluator.Evaluator, *poly.Evaluator) []T { return g.F(a, b, k).P })
	}
	def("gates.MUX", 3, func(*evaluator.Evaluator, *poly.Evaluator) []T { return gates.MUX(w.cts[0], w.cts[1], w.cts[2], k).P })
	for _, g := range orc.Batches {
		g := g
		def("gates."+g.Name, 3, func(*evaluator.Evaluator, *poly.Evaluator) []T {
			var o []T
			for _, x := range g.F([][2]*gates.Ciphertext{{w.cts[0], w.cts[1]}, {w.cts[2], w.cts[7]}, {w.cts[5], w.cts[8]}}, k) {
				o = append(o, x.P...)
			}
			return o
		})
	}
	return ps
}
