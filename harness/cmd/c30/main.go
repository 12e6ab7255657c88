// C30: operations leave nothing behind and the hot path does not allocate.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/thedonutfactory/go-tfhe/bitutils"
	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"

	"verif/orc"
	"verif/vk"
)

type T = params.Torus

var shardProfiles = []string{"uint2", "80", "128", "uint3"}

func main() {
	vk.Main(vk.Spec{
		Prop: "C30",
		Rule: "one evaluation = one operation whose allocation, goroutines, descriptors or retained memory were measured, or one object that must be collected after its last use; signature (profile, operation, measure, number)",
		Assumptions: []string{
			"an operation documented as allocation-free may allocate less than half of one polynomial per call",
			"a goroutine has ended when it is gone within five seconds of the call's return",
			"an object is retained when four garbage collections after its last use do not collect it, pools of the library being emptied by two",
			"retained memory is the growth of the live heap after a warm-up, bounded by 64 bytes per call plus 384 KB",
		},
		Shards:   func(string) int { return len(shardProfiles) },
		MinEvals: 1000,
		Run:      run,
	})
}

type mon struct {
	c *vk.C
	p orc.Profile
	k *orc.Keys
	r *rand.Rand
	n int
}

func run(c *vk.C) {
	p := orc.ByName(shardProfiles[c.Shard])
	m := &mon{c: c, p: p, k: orc.KeysFor(p), r: c.Rand("c30")}
	m.n = params.GetTRGSWLv1().N
	for round := 0; round < c.Pick(1, 8); round++ {
		m.allocations()
		m.goroutines()
		m.collected()
		m.growth()
	}
}

// allocations measures the operations documented as allocation-free.
func (m *mon) allocations() {
	c, r, n := m.c, m.r, m.n
	ck, sk := m.k.CK, m.k.SK
	bsk, ksk, do := ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset
	alpha := params.GetTLWELv0().ALPHA
	ev := evaluator.NewEvaluator(n)
	cp := ev.ShallowCopy()
	pe := poly.NewEvaluator(n)
	in := tlwe.NewTLWELv0().EncryptBool(true, alpha, sk.KeyLv0)
	in2 := tlwe.NewTLWELv0().EncryptBool(false, alpha, sk.KeyLv0)
	out := tlwe.NewTLWELv0()
	ring, ring2, rout := trlwe.NewTRLWELv1(), trlwe.NewTRLWELv1(), trlwe.NewTRLWELv1()
	orc.Fill(r, ring.A)
	orc.Fill(r, ring.B)
	orc.Fill(r, ring2.A)
	orc.Fill(r, ring2.B)
	large := tlwe.NewTLWELv1()
	orc.Fill(r, large.P)
	table := lut.NewGenerator(p2(m.p.M)).GenLookUpTable(func(x int) int { return x + 1 })
	pa, pb, pc := poly.NewPoly(n), poly.NewPoly(n), poly.NewPoly(n)
	orc.Fill(r, pa.Coeffs)
	fa, fb, fc := pe.ToFourierPoly(pa), pe.ToFourierPoly(pa), poly.NewFourierPoly(n)
	dec := poly.NewDecomposer(n, 8)
	l := params.GetTRGSWLv1().L
	type op struct {
		name  string
		heavy bool
		f     func()
	}
	ops := []op{
		{"evaluator.ExternalProductAssign", false, func() { ev.ExternalProductAssign(bsk[0], ring, do, rout) }},
		{"evaluator.CMuxAssign", false, func() { ev.CMuxAssign(bsk[1], ring, ring2, do, rout) }},
		{"evaluator.BlindRotateAssign", true, func() { ev.BlindRotateAssign(in, ck.BlindRotateTestvec, bsk, do, rout) }},
		{"evaluator.BootstrapAssign", true, func() { ev.BootstrapAssign(in, ck.BlindRotateTestvec, bsk, ksk, do, out) }},
		{"evaluator.Bootstrap", true, func() { ev.Bootstrap(in, ck.BlindRotateTestvec, bsk, ksk, do) }},
		{"evaluator.Bootstrap on a copy", true, func() { cp.Bootstrap(in2, ck.BlindRotateTestvec, bsk, ksk, do) }},
		{"evaluator.BootstrapLUTAssign", true, func() { ev.BootstrapLUTAssign(in, table, bsk, ksk, do, out) }},
		{"evaluator.BootstrapLUTTemp", true, func() { cp.BootstrapLUTTemp(in, table, bsk, ksk, do) }},
		{"evaluator.ResetBuffers", false, func() { ev.ResetBuffers() }},
		{"trgsw.IdentityKeySwitchingAssign", false, func() { trgsw.IdentityKeySwitchingAssign(large, ksk, out) }},
		{"trlwe.SampleExtractIndexAssign", false, func() { trlwe.SampleExtractIndexAssign(ring, 3, large) }},
		{"poly.PolyMulWithXKInPlace", false, func() { poly.PolyMulWithXKInPlace(ring.A, 7, rout.A) }},
		{"poly.PolyMulWithXK", false, func() { pe.PolyMulWithXK(ring.A, n+5) }},
		{"poly.PolyMulWithXKDirect", false, func() { pe.PolyMulWithXKDirect(ring.A, -3, rout.B) }},
		{"poly.DecomposePolyAssign", false, func() {
			poly.DecomposePolyAssign(ring.A, int(params.GetTRGSWLv1().BGBIT), l, do, dec.GetPolyDecomposedBuffer(l))
		}},
		{"poly buffers", false, func() {
			pe.ToFourierPolyInBuffer(pa, 1)
			pe.ClearBuffer("fpAcc")
			pe.MulAddFourierPolyAssignBuffered(1, fb, "fpAcc")
			pe.BufferToPolyAssign("fpAcc", pc.Coeffs)
			pe.GetRotationBuffer()
			pe.GetTRLWEBuffer()
		}},
		{"poly Fourier arithmetic", false, func() {
			pe.ToFourierPolyAssign(pa, fc)
			pe.AddFourierPolyAssign(fa, fb, fc)
			pe.SubFourierPolyAssign(fa, fb, fc)
			pe.MulFourierPolyAssign(fa, fb, fc)
			pe.MulAddFourierPolyAssign(fa, fb, fc)
			pe.MulSubFourierPolyAssign(fa, fb, fc)
			pe.ToPolyAssignUnsafe(fc, pb)
		}},
		{"trgsw.CMUX", false, func() { trgsw.CMUX(ring, ring2, bsk[2], do, pe) }},
		{"trgsw.ExternalProductWithFFT", false, func() { trgsw.ExternalProductWithFFT(bsk[2], ring, do, pe) }},
		{"tlwe.AddAssign", false, func() { in.AddAssign(in2, out) }},
	}
	fill := func() { // other inputs
		orc.Fill(r, ring.A)
		orc.Fill(r, ring.B)
		orc.Fill(r, ring2.A)
		orc.Fill(r, ring2.B)
		orc.Fill(r, large.P)
		orc.Fill(r, pa.Coeffs)
		orc.Fill(r, in.P)
		orc.Fill(r, in2.P)
	}
	limit := float64(2 * n) // bytes: half a polynomial
	for _, o := range ops {
		reps, variants := 10, 10
		if o.heavy {
			reps, variants = 2, c.Pick(7, 40)
		}
		c.Guard(o.name+" "+m.p.Name, func() {
			o.f()
			best := 0.0
			for v := 0; v < variants; v++ {
				fill()
				least := 0.0
				for try := 0; try < 3; try++ { // the runtime may allocate in the background
					b := allocated(func() {
						for i := 0; i < reps; i++ {
							o.f()
						}
					}) / float64(reps)
					if try == 0 || b < least {
						least = b
					}
					if least < limit {
						break
					}
				}
				best = max(best, least)
				c.Seen("alloc|%s|%s|%d", m.p.Name, o.name, v)
			}
			if best > limit {
				c.Fail(fmt.Sprintf("%s, profile %s", o.name, m.p.Name), "allocates %.0f bytes per call, documented as allocation-free (a polynomial takes %d)", best, 4*n)
			}
			c.Noise("bytes allocated per call of "+o.name, best)
		})
		c.Count("allocation_measurements", int64(variants*reps))
	}
}

func p2(m int) int {
	if m < 2 {
		return 2
	}
	return m
}

func allocated(f func()) float64 {
	runtime.GC()
	gc := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(gc)
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return float64(b.TotalAlloc - a.TotalAlloc)
}

// fds counts open descriptors.
func fds() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return len(d)
}

// goroutines: after the return of an operation nothing of it runs on.
func (m *mon) goroutines() {
	c, r := m.c, m.r
	ck, sk := m.k.CK, m.k.SK
	alpha := params.GetTLWELv0().ALPHA
	enc := func() *tlwe.TLWELv0 { return tlwe.NewTLWELv0().EncryptBool(r.Intn(2) == 0, alpha, sk.KeyLv0) }
	pairs := func(k int) (p [][2]*gates.Ciphertext) {
		for i := 0; i < k; i++ {
			p = append(p, [2]*gates.Ciphertext{enc(), enc()})
		}
		return
	}
	type op struct {
		name string
		f    func()
	}
	var ops []op
	for _, size := range []int{0, 1, 2, 3, 7, 8, 9, 16, 17, 33, 65, 130} {
		n := m.n
		for gi, g := range orc.Batches {
			if c.Quick() && size > 3 && ((gi+size)%6 != 0 || size > 65 && n > 1024) {
				continue
			}
			g, size := g, size
			ops = append(ops, op{fmt.Sprintf("%s of %d", g.Name, size), func() { g.F(pairs(size), ck) }})
		}
		ops = append(ops, op{fmt.Sprintf("BatchBlindRotate of %d", size), func() {
			var in []*tlwe.TLWELv0
			for i := 0; i < size; i++ {
				in = append(in, enc())
			}
			trgsw.BatchBlindRotate(in, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.DecompositionOffset)
		}})
	}
	for _, g := range orc.Gates2 {
		g := g
		ops = append(ops, op{"gate " + g.Name, func() { g.F(enc(), enc(), ck) }})
	}
	ops = append(ops, op{"MUX", func() { gates.MUX(enc(), enc(), enc(), ck) }},
		op{"evaluator", func() {
			e := evaluator.NewEvaluator(m.n).ShallowCopy()
			e.Bootstrap(enc(), ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
			e.BootstrapFunc(enc(), func(x int) int { return x }, 2, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
		}},
		op{"secret key", func() { key.NewSecretKey() }},
		op{"key without switching key", func() { cloudkey.NewCloudKeyNoKSK() }},
		op{"proxy re-encryption", func() {
			pk := proxyreenc.NewPublicKeyLv0WithParams(sk.KeyLv0, 8, alpha)
			k := proxyreenc.NewProxyReencryptionKeyAsymmetricWithParams(sk.KeyLv0, pk, alpha, 2, 2)
			proxyreenc.ReencryptTLWELv0(pk.EncryptBool(true, alpha), k)
			proxyreenc.NewProxyReencryptionKeySymmetricWithParams(sk.KeyLv0, sk.KeyLv0, alpha, 2, 2)
		}},
		op{"bits", func() {
			bitutils.DecryptBits(bitutils.EncryptBits(bitutils.U16ToBits(777), alpha, sk.KeyLv0), sk.KeyLv0)
		}},
	)
	if m.p.Name != "128" || !c.Quick() {
		ops = append(ops, op{"cloud key", func() { cloudkey.NewCloudKey(sk) }})
	}
	for _, o := range ops {
		g0, f0 := runtime.NumGoroutine(), fds()
		c.Guard(o.name+" "+m.p.Name, o.f)
		left := 0
		for wait := 0; wait < 500; wait++ {
			if left = runtime.NumGoroutine() - g0; left <= 0 {
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
		if left > 0 {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			c.Fail(fmt.Sprintf("%s, profile %s", o.name, m.p.Name), "%d goroutines still run five seconds after the call returned: %s", left, library(string(buf)))
		}
		if f := fds(); f > f0 {
			c.Fail(fmt.Sprintf("%s, profile %s", o.name, m.p.Name), "%d descriptors were left open", f-f0)
		}
		c.Seen("goroutines|%s|%s", m.p.Name, o.name)
		c.Count("calls_watched_for_goroutines", 1)
	}
}

// library returns the first stack that is inside the library.
func library(s string) string {
	for _, g := range strings.Split(s, "\n\n") {
		if strings.Contains(g, "go-tfhe/") && !strings.Contains(g, "main.run") {
			return g
		}
	}
	return ""
}

// collected: what the caller drops is collected, nothing keeps it alive.
func (m *mon) collected() {
	c, r := m.c, m.r
	ck, sk := m.k.CK, m.k.SK
	bsk, ksk, do := ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset
	alpha := params.GetTLWELv0().ALPHA
	type watch struct {
		name string
		live *int64
		all  int64
	}
	var ws []*watch
	begin := func(name string) *watch {
		w := &watch{name, new(int64), 0}
		ws = append(ws, w)
		return w
	}
	ct := func(w *watch) *tlwe.TLWELv0 {
		x := tlwe.NewTLWELv0().EncryptBool(r.Intn(2) == 0, alpha, sk.KeyLv0)
		track(w.live, x)
		w.all++
		return x
	}
	got := func(w *watch, x *tlwe.TLWELv0) *tlwe.TLWELv0 {
		track(w.live, x)
		w.all++
		return x
	}
	ev := evaluator.NewEvaluator(m.n) // stays in use
	pe := poly.NewEvaluator(m.n)
	func() {
		for _, g := range orc.Gates2 {
			w := begin("arguments and result of " + g.Name)
			for i := 0; i < 3; i++ {
				got(w, g.F(ct(w), ct(w), ck))
			}
		}
		w := begin("arguments and result of MUX")
		got(w, gates.MUX(ct(w), ct(w), ct(w), ck))
		for _, g := range orc.Batches {
			w := begin("arguments and results of " + g.Name)
			var in [][2]*gates.Ciphertext
			for i := 0; i < 5; i++ {
				in = append(in, [2]*gates.Ciphertext{ct(w), ct(w)})
			}
			for _, o := range g.F(in, ck) {
				got(w, o)
			}
		}
		w = begin("arguments and results of an evaluator that stays in use")
		for i := 0; i < 5; i++ {
			t := lut.NewGenerator(2 + i).GenLookUpTable(func(x int) int { return x })
			track(w.live, t)
			tv := trlwe.NewTRLWELv1()
			track(w.live, tv)
			w.all += 2
			out := tlwe.NewTLWELv0()
			got(w, out)
			ev.BootstrapLUTAssign(ct(w), t, bsk, ksk, do, out)
			got(w, ev.BootstrapLUT(ct(w), t, bsk, ksk, do))
			ev.BootstrapAssign(ct(w), tv, bsk, ksk, do, out)
			got(w, ev.BootstrapFunc(ct(w), func(x int) int { return 1 }, 2+i, bsk, ksk, do))
			ro := trlwe.NewTRLWELv1()
			track(w.live, ro)
			w.all++
			ev.BlindRotateAssign(ct(w), tv, bsk, do, ro)
			ev.ExternalProductAssign(bsk[0], ro, do, tv)
			trgsw.CMUX(ro, tv, bsk[0], do, pe)
		}
		w = begin("evaluators")
		for i := 0; i < 4; i++ {
			e := evaluator.NewEvaluator(m.n)
			k := e.ShallowCopy()
			got(w, k.BootstrapFunc(ct(w), func(x int) int { return x }, 2, bsk, ksk, do))
			track(w.live, e)
			track(w.live, k)
			track(w.live, e.PolyEvaluator)
			w.all += 3
		}
		w = begin("keys")
		for i := 0; i < 4; i++ {
			s := key.NewSecretKey()
			track(w.live, s)
			pk := proxyreenc.NewPublicKeyLv0WithParams(s.KeyLv0, 8, alpha)
			track(w.live, pk)
			k := proxyreenc.NewProxyReencryptionKeyAsymmetricWithParams(sk.KeyLv0, pk, alpha, 2, 2)
			track(w.live, k)
			got(w, proxyreenc.ReencryptTLWELv0(ct(w), k))
			k2 := proxyreenc.NewProxyReencryptionKeySymmetricWithParams(s.KeyLv0, sk.KeyLv0, alpha, 1, 3)
			track(w.live, k2)
			x1 := tlwe.NewTLWELv1().EncryptBool(true, alpha, s.KeyLv1)
			track(w.live, x1)
			x1.DecryptBool(s.KeyLv1)
			ring := trlwe.NewTRLWELv1().EncryptBool(make([]bool, m.n), 1e-6, s.KeyLv1, pe)
			track(w.live, ring)
			ring.DecryptBool(s.KeyLv1, pe)
			ex := trlwe.SampleExtractIndex(ring, 1)
			track(w.live, ex)
			got(w, trgsw.IdentityKeySwitching(ex, ksk))
			gsw := trgsw.NewTRGSWLv1FFT(trgsw.NewTRGSWLv1().EncryptTorus(1, 1e-7, s.KeyLv1, pe), pe)
			track(w.live, gsw)
			ev.ExternalProductAssign(gsw, ring, do, trlwe.NewTRLWELv1())
			trgsw.CMUX(ring, ring, gsw, do, pe)
			lwe := tlwe.NewTLWELv0().EncryptLWEMessage(1, 2, alpha, s.KeyLv0)
			got(w, lwe)
			lwe.DecryptLWEMessage(2, s.KeyLv0)
			w.all += 4
			got(w, proxyreenc.ReencryptTLWELv0(pk.EncryptBool(true, alpha), k2))
			w.all += 4
			if i == 0 && (m.p.Name == "80" || m.p.Name == "uint2") {
				cl := cloudkey.NewCloudKey(s)
				x := tlwe.NewTLWELv0().EncryptBool(true, alpha, s.KeyLv0)
				y := gates.BatchAND([][2]*gates.Ciphertext{{x, x}, {x, x}}, cl)
				got(w, x)
				got(w, y[1])
				got(w, gates.XOR(x, y[0], cl))
				track(w.live, cl)
				w.all++
			}
		}
		w = begin("tables and their generators")
		for i := 0; i < 20; i++ {
			g := lut.NewGenerator(2 + i)
			t := g.GenLookUpTable(func(x int) int { return x })
			u := t.Copy()
			track(w.live, t)
			track(w.live, u)
			track(w.live, g)
			w.all += 3
		}
		w = begin("bit lists")
		for _, x := range bitutils.EncryptBits(bitutils.U8ToBits(0x5a), alpha, sk.KeyLv0) {
			got(w, x)
		}
	}()
	live := func() (n int64) {
		for _, w := range ws {
			n += atomic.LoadInt64(w.live)
		}
		return
	}
	for i := 0; i < 200; i++ {
		runtime.GC()
		if i >= 4 && live() == 0 {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	for _, w := range ws {
		if n := atomic.LoadInt64(w.live); n > 0 {
			c.Fail(fmt.Sprintf("%s, profile %s", w.name, m.p.Name), "%d of %d dropped objects are kept alive", n, w.all)
		}
		for i := int64(0); i < w.all; i++ {
			c.Seen("collected|%s|%s|%d", m.p.Name, w.name, i)
		}
		c.Count("dropped_objects_collected", w.all)
	}
	runtime.KeepAlive(ev)
	runtime.KeepAlive(pe)
}

// track counts an object, and every array of coefficients it owns, as live until
// they are collected.
func track[X any](live *int64, x *X) {
	one := func(p *byte) {
		atomic.AddInt64(live, 1)
		runtime.AddCleanup(p, func(live *int64) { atomic.AddInt64(live, -1) }, live)
	}
	one((*byte)(unsafe.Pointer(x)))
	arrays := func(vs ...[]T) {
		for _, v := range vs {
			if len(v) > 0 {
				one((*byte)(unsafe.Pointer(&v[0])))
			}
		}
	}
	floats := func(v []float64) {
		if len(v) > 0 {
			one((*byte)(unsafe.Pointer(&v[0])))
		}
	}
	switch x := any(x).(type) {
	case *tlwe.TLWELv0:
		arrays(x.P)
	case *tlwe.TLWELv1:
		arrays(x.P)
	case *trlwe.TRLWELv1:
		arrays(x.A, x.B)
	case *lut.LookUpTable:
		arrays(x.Poly.A, x.Poly.B)
	case *key.SecretKey:
		arrays(x.KeyLv0, x.KeyLv1)
	case *trgsw.TRGSWLv1FFT:
		for _, r := range x.TRLWEFFT {
			floats(r.A.Coeffs)
			floats(r.B.Coeffs)
		}
	case *proxyreenc.PublicKeyLv0:
		for _, e := range x.Encryptions {
			arrays(e.P)
		}
	case *proxyreenc.ProxyReencryptionKey:
		for _, e := range x.KeyEncryptions {
			arrays(e.P)
		}
	case *cloudkey.CloudKey:
		arrays(x.BlindRotateTestvec.A, x.BlindRotateTestvec.B)
		for _, e := range x.KeySwitchingKey {
			arrays(e.P)
		}
		for _, g := range x.BootstrappingKey {
			for _, r := range g.TRLWEFFT {
				floats(r.A.Coeffs)
				floats(r.B.Coeffs)
			}
		}
	}
}

func heap() int64 {
	for i := 0; i < 4; i++ {
		runtime.GC()
		time.Sleep(2 * time.Millisecond)
	}
	var s runtime.MemStats
	runtime.ReadMemStats(&s)
	return int64(s.HeapAlloc)
}

// growth: the live heap does not grow with the number of calls, whatever
// varies from call to call.
func (m *mon) growth() {
	c, r, n := m.c, m.r, m.n
	ck, sk := m.k.CK, m.k.SK
	bsk, ksk, do := ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset
	alpha := params.GetTLWELv0().ALPHA
	a1 := params.GetTRLWELv1().ALPHA
	ev := evaluator.NewEvaluator(n)
	pe := poly.NewEvaluator(n)
	in := tlwe.NewTLWELv0().EncryptBool(true, alpha, sk.KeyLv0)
	ring := trlwe.NewTRLWELv1()
	f := make([]float64, n)
	poly1 := poly.NewPoly(n)
	orc.Fill(r, poly1.Coeffs)
	heavy := c.Pick(40, 400)
	if n == 2048 {
		heavy /= 2
	}
	mod := 2
	profs := []string{"80", "110", "128", "uint1", "uint2", "uint3", "uint4", "uint5"}
	ops := []struct {
		name string
		k    int
		f    func(i int)
	}{
		{"encryptions", 3000, func(i int) {
			tlwe.NewTLWELv0().EncryptF64(float64(i)/7, alpha, sk.KeyLv0)
			if i%4 == 0 {
				sk := key.NewSecretKey()
				tlwe.NewTLWELv0().EncryptBool(true, alpha, sk.KeyLv0).DecryptBool(sk.KeyLv0)
				tlwe.NewTLWELv1().EncryptBool(true, alpha, sk.KeyLv1).DecryptBool(sk.KeyLv1)
			}
			tlwe.NewTLWELv0().EncryptLWEMessage(i, 2+i, alpha, sk.KeyLv0)
		}},
		{"ring encryptions", 150, func(i int) {
			sk := key.NewSecretKey()
			trlwe.NewTRLWELv1().EncryptF64(f, a1, sk.KeyLv1, pe).DecryptBool(sk.KeyLv1, pe)
			trlwe.NewTRLWELv1().EncryptF64(f, a1, sk.KeyLv1, poly.NewEvaluator(n))
			f[i%n] = float64(i) / 100
			trlwe.NewTRLWELv1().EncryptF64(f, a1, sk.KeyLv1, pe)
			trgsw.NewTRGSWLv1FFT(trgsw.NewTRGSWLv1().EncryptTorus(T(i), a1, sk.KeyLv1, pe), pe)
		}},
		{"secret keys", 1000, func(int) { key.NewSecretKey() }},
		{"tables of many moduli", 300, func(i int) {
			mod++
			g := lut.NewGenerator(mod)
			g.GenLookUpTable(func(x int) int { return x + i })
			g.GenLookUpTableFull(func(x int) T { return T(x+i) << 20 })
			g.GenLookUpTableCustom(func(x int) int { return x }, mod, 1/float64(mod))
		}},
		{"encoders and generators of many scales", 12000, func(i int) {
			sc := 1 / (float64(i) + 0.5)
			lut.NewEncoder(2 + i%60000).Encode(i)
			e := lut.NewEncoderWithScale(2+i%9, sc)
			e.Decode(e.Encode(i % 3))
			e.EncodeWithCustomScale(i%3, sc/2)
			e.DecodeBool(T(i) << 8)
			g := lut.NewGeneratorWithScale(2+i%9, sc)
			g.ModSwitch(T(i) << 16)
			if i%60 == 0 {
				g.GenLookUpTable(func(x int) int { return x })
				lut.NewGenerator(3).GenLookUpTableCustom(func(x int) int { return x }, 2+i%9, sc)
			}
			tlwe.NewTLWELv0().EncryptLWEMessage(i%3, 2+i, alpha, sk.KeyLv0)
		}},
		{"bootstraps of functions", heavy, func(i int) {
			mod++
			ev.BootstrapFunc(in, func(x int) int { return x * i }, 2+mod%500, bsk, ksk, do)
		}},
		{"bootstraps with tables", heavy, func(i int) {
			t := lut.NewGenerator(2 + i%5).GenLookUpTable(func(x int) int { return x + i })
			ev.BootstrapLUTTemp(in, t, bsk, ksk, do)
			ev.Bootstrap(in, ck.BlindRotateTestvec, bsk, ksk, do)
		}},
		{"gates", heavy, func(i int) {
			x := tlwe.NewTLWELv0().EncryptBool(i%2 == 0, alpha, sk.KeyLv0)
			orc.Gates2[i%len(orc.Gates2)].F(x, in, ck)
		}},
		{"batch gates", heavy / 3, func(i int) {
			x := tlwe.NewTLWELv0().EncryptBool(i%2 == 0, alpha, sk.KeyLv0)
			orc.Batches[i%len(orc.Batches)].F([][2]*gates.Ciphertext{{x, in}, {in, x}, {x, x}}, ck)
		}},
		{"evaluators", 60, func(int) {
			e := evaluator.NewEvaluator(n)
			e.ShallowCopy().ExternalProductAssign(bsk[0], ring, do, ring)
		}},
		{"polynomial evaluators of all degrees", 60, func(i int) {
			d := 16 << (i % 8)
			e := poly.NewEvaluator(d)
			q := e.NewPoly()
			e.ShallowCopy().MulPoly(q, q)
		}},
		{"polynomial products", 600, func(i int) {
			poly1.Coeffs[i%n] ^= T(i)
			pe.MulPoly(poly1, poly1)
			pe.PolyMulWithXK(poly1.Coeffs, i)
		}},
		{"external products and multiplexers", 300, func(i int) {
			orc.Fill(r, ring.A)
			trgsw.CMUX(ring, trlwe.NewTRLWELv1(), bsk[i%len(bsk)], do, pe)
			ev.CMuxAssign(bsk[i%len(bsk)], ring, trlwe.NewTRLWELv1(), do, ring)
		}},
		{"key switches", 300, func(i int) {
			x := tlwe.NewTLWELv1()
			orc.Fill(r, x.P)
			trgsw.IdentityKeySwitching(x, ksk)
			trlwe.SampleExtractIndex(ring, i%n)
		}},
		{"proxy re-encryption", 25, func(i int) {
			to := key.NewSecretKey().KeyLv0
			pk := proxyreenc.NewPublicKeyLv0WithParams(to, 6, alpha)
			proxyreenc.ReencryptTLWELv0(in, proxyreenc.NewProxyReencryptionKeyAsymmetricWithParams(sk.KeyLv0, pk, alpha, 1, 2))
			proxyreenc.ReencryptTLWELv0(in, proxyreenc.NewProxyReencryptionKeySymmetricWithParams(sk.KeyLv0, to, alpha, 1, 2))
			pk.EncryptBool(i%2 == 0, alpha)
		}},
		{"integers in bits", 60, func(i int) {
			bitutils.DecryptBits(bitutils.EncryptBits(bitutils.U32ToBits(uint32(i)), alpha, sk.KeyLv0), sk.KeyLv0)
		}},
		{"profile switches", 300, func(i int) {
			orc.ByName(profs[i%len(profs)]).Use()
			key.NewSecretKey()
			params.GetTRGSWLv1()
			m.p.Use()
		}},
	}
	for _, o := range ops {
		c.Guard(o.name+" "+m.p.Name, func() {
			for i := 0; i < min(o.k, 70); i++ { // warm-up
				o.f(i)
			}
			var grown int64
			for try := 0; try < 3; try++ {
				h := heap()
				for i := 0; i < o.k; i++ {
					o.f(1000 + try*o.k + i)
				}
				g := heap() - h
				if try == 0 || g < grown {
					grown = g
				}
				if grown < 64*int64(o.k)+384<<10 {
					break
				}
			}
			if grown >= 64*int64(o.k)+384<<10 {
				c.Fail(fmt.Sprintf("%s, profile %s", o.name, m.p.Name), "the live heap grows by %d bytes in %d calls, again and again", grown, o.k)
			}
			c.Noise("bytes retained per call of "+o.name, float64(grown)/float64(o.k))
		})
		for i := 0; i < o.k; i++ {
			c.Seen("growth|%s|%s|%d", m.p.Name, o.name, i)
		}
		c.Count("calls_watched_for_growth", int64(o.k))
	}
}
