// C10: documented concurrent use is race-free and gives the sequential results.
//
// Built with the race detector. The goroutines of a round do not synchronise
// with each other between operations (results are judged after the round), so
// that the detector's happens-before order contains only the library's own
// synchronisation.
package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"time"

	"github.com/thedonutfactory/go-tfhe/bitutils"
	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"

	"verif/orc"
	"verif/vk"
)

type T = params.Torus

var shardCfg = []struct {
	prof   string
	proc   int
	rounds int
}{{"uint2", 8, 4}, {"uint2", 2, 2}, {"uint2", 16, 4}, {"80", 8, 1}, {"uint3", 4, 1}}

func main() {
	vk.Main(vk.Spec{
		Prop: "C10",
		Rule: "one evaluation = one call made while others ran, compared with the same call made alone (bit for bit where it is deterministic, by decryption where it is randomised), under the race detector; signature (profile, processors, operation, kinds of operations it overlapped with)",
		Assumptions: []string{
			"the race detector reports unsynchronised accesses of the interleavings that occurred",
			"single gate calls share one evaluator and are not promised to be concurrent; they are not part of the workload",
		},
		Shards: func(string) int { return len(shardCfg) },
		Env: func(_ string, i int) []string {
			return []string{fmt.Sprintf("GOMAXPROCS=%d", shardCfg[i].proc)}
		},
		MinEvals: 300,
		Run:      run,
	})
}

type rec struct {
	op    string
	start time.Duration
	end   time.Duration
	msg   string // not empty: wrong
}

type world struct {
	p     orc.Profile
	k     *orc.Keys
	sk2   *key.SecretKey
	n     int
	cts   []*tlwe.TLWELv0
	bits  []bool
	luts  []*lut.LookUpTable
	rings []*trlwe.TRLWELv1
	gsw   *trgsw.TRGSWLv1FFT
	pk    *proxyreenc.PublicKeyLv0
	rk    *proxyreenc.ProxyReencryptionKey
	base  *evaluator.Evaluator
	basep *poly.Evaluator
	// sequential answers
	boot  [][]T
	lutw  [][][]T
	reenc [][]T
	ext   [][]T
	cmux  [][]T
	rot   [][]T
	xk    [][]T
	mul   [][]T
	ext2  [][]T
	pairs [][2]*gates.Ciphertext
}

func cat(a, b []T) []T { return append(append([]T(nil), a...), b...) }

func run(c *vk.C) {
	cfg := shardCfg[c.Shard]
	p := orc.ByName(cfg.prof)
	w := &world{p: p, k: orc.KeysFor(p), sk2: key.NewSecretKey()}
	r := c.Rand("c10")
	w.n = params.GetTRGSWLv1().N
	alpha := params.GetTLWELv0().ALPHA
	ck := w.k.CK
	for i := 0; i < 3; i++ {
		w.bits = append(w.bits, i%2 == 1)
		w.cts = append(w.cts, tlwe.NewTLWELv0().EncryptBool(i%2 == 1, alpha, w.k.SK.KeyLv0))
	}
	for i := 0; i < 2; i++ {
		w.luts = append(w.luts, lut.NewGenerator(2).GenLookUpTable(func(x int) int { return (x*i + 1) % 2 }))
	}
	w.base, w.basep = evaluator.NewEvaluator(w.n), poly.NewEvaluator(w.n)
	for i := 0; i < 3; i++ {
		x := trlwe.NewTRLWELv1()
		orc.Fill(r, x.A)
		orc.Fill(r, x.B)
		w.rings = append(w.rings, x)
	}
	w.gsw = trgsw.NewTRGSWLv1FFT(trgsw.NewTRGSWLv1().EncryptTorus(1, params.BSKAlpha(), w.k.SK.KeyLv1, w.basep), w.basep)
	w.pk = proxyreenc.NewPublicKeyLv0WithParams(w.sk2.KeyLv0, 30, 1e-8)
	w.rk = proxyreenc.NewProxyReencryptionKeySymmetricWithParams(w.k.SK.KeyLv0, w.sk2.KeyLv0, 1e-8, 2, 6)
	for i, a := range w.cts {
		w.pairs = append(w.pairs, [2]*gates.Ciphertext{a, w.cts[(i+1)%3]})
	}
	w.shared(c, r)
	// sequential answers
	ev := evaluator.NewEvaluator(w.n)
	for i, ct := range w.cts {
		w.boot = append(w.boot, orc.CloneLWE(ev.Bootstrap(ct, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)).P)
		var row [][]T
		for _, l := range w.luts {
			row = append(row, ev.BootstrapLUT(ct, l, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset).P)
		}
		w.lutw = append(w.lutw, row)
		w.reenc = append(w.reenc, proxyreenc.ReencryptTLWELv0(ct, w.rk).P)
		o := trgsw.BlindRotate(ct, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.DecompositionOffset, poly.NewEvaluator(w.n))
		w.rot = append(w.rot, cat(o.A, o.B))
		_ = i
	}
	for i, x := range w.rings {
		o := trlwe.NewTRLWELv1()
		ev.ExternalProductAssign(w.gsw, x, ck.DecompositionOffset, o)
		w.ext = append(w.ext, cat(o.A, o.B))
		ev.CMuxAssign(w.gsw, x, w.rings[(i+1)%3], ck.DecompositionOffset, o)
		w.cmux = append(w.cmux, cat(o.A, o.B))
		pe := poly.NewEvaluator(w.n)
		w.xk = append(w.xk, append([]T(nil), pe.PolyMulWithXK(x.A, []int{5, w.n - 1, w.n + 7}[i])...))
		w.mul = append(w.mul, pe.MulPoly(poly.Poly{Coeffs: x.A}, poly.Poly{Coeffs: w.k.SK.KeyLv1}).Coeffs)
		e2 := trgsw.ExternalProductWithFFT(w.gsw, x, ck.DecompositionOffset, pe)
		w.ext2 = append(w.ext2, cat(e2.A, e2.B))
	}
	rounds := c.Pick(cfg.rounds, 40*cfg.rounds)
	overlaps := map[string]int64{}
	for round := 0; round < rounds; round++ {
		recs := w.round(c, round, cfg.proc)
		// judge and measure overlap
		var all []struct {
			rec
			g int
		}
		for g, rs := range recs {
			for _, x := range rs {
				if x.msg != "" {
					c.Fail(fmt.Sprintf("%s profile=%s processors=%d round=%d", x.op, p.Name, cfg.proc, round), "%s", x.msg)
				}
				all = append(all, struct {
					rec
					g int
				}{x, g})
			}
		}
		sort.Slice(all, func(i, j int) bool { return all[i].start < all[j].start })
		for i, a := range all {
			kinds := map[string]bool{}
			for j := i + 1; j < len(all) && all[j].start < a.end; j++ {
				if all[j].g != a.g {
					overlaps[a.op+" || "+all[j].op]++
					kinds[all[j].op] = true
				}
			}
			var ks []string
			for k := range kinds {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			c.Seen("%s|%d|%s|%v", p.Name, cfg.proc, a.op, ks)
			c.Count("op_"+a.op, 1)
		}
	}
	var pairs int64
	for _, v := range overlaps {
		pairs += v
	}
	c.Count("overlapping_call_pairs", pairs)
	c.Count("distinct_overlapping_kinds", int64(len(overlaps)))
}

func (w *world) round(c *vk.C, round, proc int) [][]rec {
	ck := w.k.CK
	alpha := params.GetTLWELv0().ALPHA
	t0 := time.Now()
	type worker func(r *rand.Rand, do func(op string, f func() string))
	eq := func(what string, got, want []T) string {
		if !orc.Eq(got, want) {
			return what + " differs from the sequential result: " + orc.Diff(got, want)
		}
		return ""
	}
	evalWorker := func(mk func() *evaluator.Evaluator) worker {
		return func(r *rand.Rand, do func(string, func() string)) {
			ev := mk()
			for i := 0; i < 3; i++ {
				j, l := r.Intn(len(w.cts)), r.Intn(len(w.luts))
				switch r.Intn(5) {
				case 0:
					do("Bootstrap", func() string {
						return eq("bootstrap", ev.Bootstrap(w.cts[j], ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset).P, w.boot[j])
					})
				case 1:
					do("BootstrapLUT", func() string {
						return eq("table bootstrap", ev.BootstrapLUT(w.cts[j], w.luts[l], ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset).P, w.lutw[j][l])
					})
				case 2:
					do("BootstrapFunc", func() string {
						return eq("function bootstrap", ev.BootstrapFunc(w.cts[j], func(x int) int { return (x*l + 1) % 2 }, 2, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset).P, w.lutw[j][l])
					})
				case 3:
					do("BootstrapLUTTemp", func() string {
						return eq("table bootstrap", ev.BootstrapLUTTemp(w.cts[j], w.luts[l], ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset).P, w.lutw[j][l])
					})
				default:
					do("ring operations", func() string {
						o := trlwe.NewTRLWELv1()
						for q := 0; q < 6; q++ {
							x := r.Intn(3)
							ev.ExternalProductAssign(w.gsw, w.rings[x], ck.DecompositionOffset, o)
							if m := eq("external product", cat(o.A, o.B), w.ext[x]); m != "" {
								return m
							}
							ev.CMuxAssign(w.gsw, w.rings[x], w.rings[(x+1)%3], ck.DecompositionOffset, o)
							if m := eq("multiplexer", cat(o.A, o.B), w.cmux[x]); m != "" {
								return m
							}
						}
						return ""
					})
				}
			}
		}
	}
	var ws []worker
	ws = append(ws, evalWorker(func() *evaluator.Evaluator { return evaluator.NewEvaluator(w.n) }))
	orig := evaluator.NewEvaluator(w.n) // the original works while its copies, and a copy of a copy, do
	c1 := orig.ShallowCopy()
	for _, e := range []*evaluator.Evaluator{orig, c1, c1.ShallowCopy()} {
		ws = append(ws, evalWorker(func() *evaluator.Evaluator { return e }))
	}
	for i := 0; i < 2; i++ { // copies of one shared evaluator, made at the same time
		ws = append(ws, evalWorker(func() *evaluator.Evaluator { return w.base.ShallowCopy() }))
	}
	for b := 0; b < 2; b++ {
		ws = append(ws, func(r *rand.Rand, do func(string, func() string)) {
			{
				g := orc.Batches[(2*round+b)%len(orc.Batches)]
				do(g.Name, func() string {
					res := g.F(w.pairs, ck)
					if len(res) != len(w.pairs) {
						return "wrong number of results"
					}
					for i, o := range res {
						want := g.T(w.bits[i], w.bits[(i+1)%3])
						if e := orc.Err(orc.Phase0(o, w.k.SK.KeyLv0), orc.BoolMu(want)); e > 9*w.p.Sig || e < -9*w.p.Sig {
							return fmt.Sprintf("item %d has phase error %g (want %v)", i, e, want)
						}
					}
					return ""
				})
			}
		})
	}
	// polynomial work on an evaluator and its copies
	polyWorker := func(mk func() *poly.Evaluator) worker {
		return func(r *rand.Rand, do func(string, func() string)) {
			pe := mk()
			for i := 0; i < 4; i++ {
				x := r.Intn(3)
				do("polynomial operations", func() string {
					for q := 0; q < 12; q++ {
						in := poly.Poly{Coeffs: w.rings[(x+q)%3].A}
						if m := eq("transforming back and forth", pe.ToPoly(pe.ToFourierPoly(in)).Coeffs, in.Coeffs); m != "" {
							return m
						}
						k := []int{5, w.n - 1, w.n + 7}[(x+q)%3]
						if m := eq("rotation", pe.PolyMulWithXK(in.Coeffs, k), w.xk[(x+q)%3]); m != "" {
							return m
						}
						if m := eq("product", pe.MulPoly(in, poly.Poly{Coeffs: w.k.SK.KeyLv1}).Coeffs, w.mul[(x+q)%3]); m != "" {
							return m
						}
						o := trgsw.ExternalProductWithFFT(w.gsw, w.rings[(x+q)%3], ck.DecompositionOffset, pe)
						if m := eq("pooled external product", cat(o.A, o.B), w.ext2[(x+q)%3]); m != "" {
							return m
						}
					}
					return ""
				})
			}
		}
	}
	kid := w.basep.ShallowCopy()
	idle := evaluator.NewEvaluator(w.n)
	ws = append(ws, polyWorker(func() *poly.Evaluator { return w.basep }))
	for _, e := range []*poly.Evaluator{kid, w.basep.ShallowCopy(), kid.ShallowCopy(), idle.PolyEvaluator, idle.ShallowCopy().PolyEvaluator} {
		ws = append(ws, polyWorker(func() *poly.Evaluator { return e }))
	}
	for g := 0; g < 2; g++ {
		pe := w.basep.ShallowCopy()
		ws = append(ws, func(r *rand.Rand, do func(string, func() string)) { // own polynomial evaluator
			for i := 0; i < 1; i++ {
				j := r.Intn(len(w.cts))
				do("trgsw.BlindRotate", func() string {
					o := trgsw.BlindRotate(w.cts[j], ck.BlindRotateTestvec, ck.BootstrappingKey, ck.DecompositionOffset, pe)
					return eq("blind rotation", cat(o.A, o.B), w.rot[j])
				})
				do("BatchBlindRotate", func() string {
					for i, o := range trgsw.BatchBlindRotate(w.cts[:2], ck.BlindRotateTestvec, ck.BootstrappingKey, ck.DecompositionOffset) {
						if m := eq("batch blind rotation", cat(o.A, o.B), w.rot[i]); m != "" {
							return m
						}
					}
					return ""
				})
			}
		})
	}
	for g := 0; g < 2; g++ {
		pe := w.base.ShallowCopy().PolyEvaluator
		ws = append(ws, func(r *rand.Rand, do func(string, func() string)) { // users
			for i := 0; i < 4; i++ {
				do("encryption", func() string {
					for q := 0; q < 10; q++ {
						v := r.Intn(2) == 0
						if tlwe.NewTLWELv0().EncryptBool(v, alpha, w.k.SK.KeyLv0).DecryptBool(w.k.SK.KeyLv0) != v {
							return "encryption of a bit does not decrypt"
						}
						if tlwe.NewTLWELv0().EncryptLWEMessage(1, 2, alpha, w.k.SK.KeyLv0).DecryptLWEMessage(2, w.k.SK.KeyLv0) != 1 {
							return "encryption of a message does not decrypt"
						}
						if tlwe.NewTLWELv1().EncryptBool(v, 1e-7, w.k.SK.KeyLv1).DecryptBool(w.k.SK.KeyLv1) != v {
							return "large encryption does not decrypt"
						}
					}
					return ""
				})
				do("bit encryption", func() string {
					x := uint8(r.Intn(256))
					if bitutils.ConvertU8(bitutils.DecryptBits(bitutils.EncryptBits(bitutils.U8ToBits(x), alpha, w.k.SK.KeyLv0), w.k.SK.KeyLv0)) != x {
						return "encrypted byte does not decrypt"
					}
					return ""
				})
				do("ring encryption", func() string {
					in := make([]bool, w.n)
					for j := range in {
						in[j] = r.Intn(2) == 0
					}
					out := trlwe.NewTRLWELv1().EncryptBool(in, 1e-8, w.k.SK.KeyLv1, pe).DecryptBool(w.k.SK.KeyLv1, pe)
					for j := range in {
						if in[j] != out[j] {
							return "ring encryption does not decrypt"
						}
					}
					return ""
				})
				do("public-key encryption", func() string {
					v := r.Intn(2) == 0
					if w.pk.EncryptBool(v, 1e-8).DecryptBool(w.sk2.KeyLv0) != v {
						return "public-key encryption does not decrypt"
					}
					return ""
				})
				j := r.Intn(len(w.cts))
				do("re-encryption", func() string {
					return eq("re-encryption", proxyreenc.ReencryptTLWELv0(w.cts[j], w.rk).P, w.reenc[j])
				})
				do("tables", func() string {
					g := lut.NewGenerator(2)
					l := r.Intn(len(w.luts))
					t := g.GenLookUpTable(func(x int) int { return (x*l + 1) % 2 })
					return eq("table", t.Poly.B, w.luts[l].Copy().Poly.B)
				})
			}
		})
	}
	ws = append(ws, func(r *rand.Rand, do func(string, func() string)) { // key generation
		if w.p.Name == "uint2" && round == 1 {
			var sk *key.SecretKey
			do("secret key generation", func() string { sk = key.NewSecretKey(); return "" })
			do("cloud key generation", func() string {
				nk := cloudkey.NewCloudKey(sk)
				in := tlwe.NewTLWELv0().EncryptBool(true, alpha, sk.KeyLv0)
				o := evaluator.NewEvaluator(w.n).Bootstrap(in, nk.BlindRotateTestvec, nk.BootstrappingKey, nk.KeySwitchingKey, nk.DecompositionOffset)
				if !o.DecryptBool(sk.KeyLv0) {
					return "a key generated meanwhile does not work"
				}
				return ""
			})
		}
		do("re-encryption key generation", func() string {
			rk := proxyreenc.NewProxyReencryptionKeySymmetricWithParams(w.k.SK.KeyLv0, w.sk2.KeyLv0, 1e-8, 1, 10)
			if proxyreenc.ReencryptTLWELv0(w.cts[1], rk).DecryptBool(w.sk2.KeyLv0) != w.bits[1] {
				return "a re-encryption key generated meanwhile does not work"
			}
			proxyreenc.NewProxyReencryptionKeyAsymmetricWithParams(w.k.SK.KeyLv0, w.pk, 1e-8, 1, 1)
			return ""
		})
	})
	out := make([][]rec, len(ws))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := range ws {
		wg.Add(1)
		r := c.Rand("worker %d %d", round, g)
		go func(g int) {
			defer wg.Done()
			c.Guard(fmt.Sprintf("worker %d profile=%s processors=%d", g, w.p.Name, proc), func() {
				<-start
				ws[g](r, func(op string, f func() string) {
					for k := r.Intn(4); k > 0; k-- {
						runtime.Gosched()
					}
					a := time.Since(t0)
					msg := f()
					out[g] = append(out[g], rec{op, a, time.Since(t0), msg})
				})
			})
		}(g)
	}
	close(start)
	wg.Wait()
	return out
}

// shared looks for memory that two evaluators reach and one of them writes, and
// then runs these two side by side with nothing in between that could order them,
// for the race detector to judge.
func (w *world) shared(c *vk.C, r *rand.Rand) {
	ck := w.k.CK
	bsk, ksk, do := ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset
	usePoly := func(pe *poly.Evaluator, r *rand.Rand) {
		a, b, o := poly.NewPoly(w.n), poly.NewPoly(w.n), poly.NewPoly(w.n)
		orc.Fill(r, a.Coeffs)
		orc.Fill(r, b.Coeffs)
		pe.MulPolyAssign(a, b, o)
		pe.MulAddPolyAssign(a, b, o)
		pe.MulSubPolyAssign(a, b, o)
		fa, fb := pe.ToFourierPoly(a), pe.ToFourierPoly(b)
		pe.MulFourierPolyAssign(fa, fb, fa)
		pe.ToPolyAssignUnsafe(fa, o)
		for i := 0; i < 8; i++ {
			pe.ToFourierPolyInBuffer(a, i%2)
			pe.CopyToDecompBuffer(b.Coeffs, i)
			pe.PolyMulWithXK(a.Coeffs, r.Intn(2*w.n))
			x, y := pe.GetTRLWEBuffer()
			copy(x, a.Coeffs)
			copy(y, b.Coeffs)
		}
		pe.ClearBuffer("fpAcc")
		pe.ClearBuffer("fpBcc")
		pe.MulAddFourierPolyAssignBuffered(0, fb, "fpAcc")
		pe.MulAddFourierPolyAssignBuffered(1, fb, "fpBcc")
		pe.BufferToPolyAssign("fpAcc", o.Coeffs)
		x, y := trlwe.NewTRLWELv1(), trlwe.NewTRLWELv1()
		orc.Fill(r, x.A)
		orc.Fill(r, x.B)
		orc.Fill(r, y.A)
		trgsw.CMUX(x, y, w.gsw, do, pe)
		trgsw.ExternalProductWithFFT(w.gsw, x, do, pe)
		x.DecryptBool(w.k.SK.KeyLv1, pe)
		trlwe.NewTRLWELv1().EncryptF64(make([]float64, w.n), 1e-5, w.k.SK.KeyLv1, pe)
	}
	use := func(ev *evaluator.Evaluator, r *rand.Rand) {
		x, y, o := trlwe.NewTRLWELv1(), trlwe.NewTRLWELv1(), trlwe.NewTRLWELv1()
		orc.Fill(r, x.A)
		orc.Fill(r, x.B)
		orc.Fill(r, y.B)
		ev.ExternalProductAssign(w.gsw, x, do, o)
		ev.CMuxAssign(w.gsw, x, y, do, o)
		ct := tlwe.NewTLWELv0()
		orc.Fill(r, ct.P)
		ev.PrepareXOR(ct, w.cts[0])
		ev.PrepareNAND(ct, w.cts[1])
		ev.Bootstrap(ct, ck.BlindRotateTestvec, bsk, ksk, do)
		ev.BootstrapLUTTemp(w.cts[0], w.luts[0], bsk, ksk, do)
		ev.BootstrapFunc(ct, func(v int) int { return v + 1 }, 2, bsk, ksk, do)
		for i := 0; i < 3; i++ {
			orc.Fill(r, ev.Buffers.GetNextResult().P)
		}
		ev.ResetBuffers()
		usePoly(ev.PolyEvaluator, r)
	}
	e0 := evaluator.NewEvaluator(w.n)
	e1 := e0.ShallowCopy()
	use(e0, r)
	e2 := e0.ShallowCopy() // of a used one
	e3 := e2.ShallowCopy()
	use(e3, r)
	p0 := poly.NewEvaluator(w.n)
	p1 := p0.ShallowCopy()
	usePoly(p1, r)
	p2, p3 := p1.ShallowCopy(), p0.ShallowCopy()
	type obj struct {
		name string
		x    any
		use  func(*rand.Rand)
	}
	objs := []obj{
		{"an evaluator", e0, func(r *rand.Rand) { use(e0, r) }},
		{"its copy", e1, func(r *rand.Rand) { use(e1, r) }},
		{"its copy made after use", e2, func(r *rand.Rand) { use(e2, r) }},
		{"a copy of that copy", e3, func(r *rand.Rand) { use(e3, r) }},
		{"another evaluator", w.base, func(r *rand.Rand) { use(w.base, r) }},
		{"a polynomial evaluator", p0, func(r *rand.Rand) { usePoly(p0, r) }},
		{"its copy (polynomial evaluator)", p1, func(r *rand.Rand) { usePoly(p1, r) }},
		{"a copy of that copy (polynomial evaluator)", p2, func(r *rand.Rand) { usePoly(p2, r) }},
		{"a second copy (polynomial evaluator)", p3, func(r *rand.Rand) { usePoly(p3, r) }},
		{"another polynomial evaluator", w.basep, func(r *rand.Rand) { usePoly(w.basep, r) }},
	}
	reach := make([][]orc.Range, len(objs))
	for i, o := range objs {
		reach[i] = orc.Reach(o.x)
	}
	type watch struct {
		who int
		r   orc.Range
		h   uint64
	}
	for i, o := range objs {
		var ws []watch
		for j := range objs {
			if j == i {
				continue
			}
			for _, x := range orc.Overlap(reach[i], reach[j]) {
				ws = append(ws, watch{j, x, orc.HashRange(x)})
			}
		}
		c.Guard("shared memory "+w.p.Name, func() { o.use(r) })
		with := map[int]bool{}
		for _, x := range ws {
			if orc.HashRange(x.r) != x.h {
				with[x.who] = true
			}
		}
		for j := range with {
			for k := 0; k < 3; k++ {
				var wg sync.WaitGroup
				for _, x := range []int{i, j} {
					wg.Add(1)
					r := rand.New(rand.NewSource(r.Int63()))
					go func() {
						defer wg.Done()
						c.Guard("side by side "+w.p.Name, func() { objs[x].use(r) })
					}()
				}
				wg.Wait()
			}
			c.Count("pairs_sharing_written_memory_run_side_by_side", 1)
		}
		c.Count("stretches_of_shared_memory_watched", int64(len(ws)))
		c.Seen("shared|%s|%s|%d", w.p.Name, o.name, len(ws))
	}
	for _, o := range objs {
		runtime.KeepAlive(o.x)
	}
}
