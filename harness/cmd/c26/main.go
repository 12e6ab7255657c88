// C26: switching parameter profiles between sessions is safe.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"

	"github.com/thedonutfactory/go-tfhe/bitutils"
	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"

	"verif/orc"
	"verif/vk"
)

type T = params.Torus

// the profiles one process switches between; the first one is used first
var sets = [][]string{
	{"128", "uint2", "uint4"},
	{"uint1", "128", "110"},
	{"80", "uint3", "uint2"},
	{"uint4", "80", "128", "unknown"},
	{"uint2", "uint1", "110"},
	{"uint3", "80", "uint1", "uint2"},
	{"110", "uint2", "uint5"},
}

func main() {
	vk.Main(vk.Spec{
		Prop: "C26",
		Rule: "one evaluation = one operation after a profile selection, judged by its plaintext meaning, its dimensions and its noise, and again after later selections by bit-exact equality with its first result; signature (previous profile, profile, operation, age of what it uses)",
		Assumptions: []string{
			"profiles are switched while no operation runs",
			"phase error bound 9 standard deviations of the profile's bootstrap noise",
		},
		Shards:   func(string) int { return len(sets) },
		MinEvals: 500,
		Run:      run,
	})
}

// session is everything made under one profile.
type session struct {
	p     orc.Profile
	level params.SecurityLevel
	name  string
	n0, n int
	sk    *key.SecretKey
	ck    *cloudkey.CloudKey
	sk2   *key.SecretKey
	rk    *proxyreenc.ProxyReencryptionKey
	pk    *proxyreenc.PublicKeyLv0
	evs   []*evaluator.Evaluator
	pes   []*poly.Evaluator
	gen   *lut.Generator
	luts  []*table
	bits  []bit
	msgs  []msg
	rings []ring
	log   []replay
	// dimensions as first read
	l, bgbit, basebit, iksT int
	alpha                   float64
}

type table struct {
	t *lut.LookUpTable
	f []int
}
type bit struct {
	ct *tlwe.TLWELv0
	v  bool
}
type msg struct {
	ct *tlwe.TLWELv0
	v  int
}
type ring struct {
	ct *trlwe.TRLWELv1
	v  []bool
}
type replay struct {
	name string
	f    func() []T
	want []T
}

func newSession(c *vk.C, r *rand.Rand, name string) *session {
	s := &session{name: name}
	if name == "unknown" { // an unknown selection means the 128-bit profile
		s.p = orc.ByName("128")
		s.level = params.SecurityLevel(999)
	} else {
		s.p = orc.ByName(name)
		s.level = s.p.Level
	}
	s.selectIt()
	s.n0, s.n = params.GetTLWELv0().N, params.GetTRGSWLv1().N
	g := params.GetTRGSWLv1()
	s.l, s.bgbit, s.basebit, s.iksT, s.alpha = g.L, int(g.BGBIT), g.BASEBIT, g.IKS_T, params.GetTLWELv0().ALPHA
	s.sk, s.sk2 = key.NewSecretKey(), key.NewSecretKey()
	s.ck = cloudkey.NewCloudKey(s.sk)
	s.rk = proxyreenc.NewProxyReencryptionKeySymmetricWithParams(s.sk.KeyLv0, s.sk2.KeyLv0, 1e-7, 4, 5)
	s.pk = proxyreenc.NewPublicKeyLv0WithParams(s.sk.KeyLv0, 20, 1e-7)
	s.evs = []*evaluator.Evaluator{evaluator.NewEvaluator(s.n)}
	s.pes = []*poly.Evaluator{poly.NewEvaluator(s.n)}
	s.gen = lut.NewGenerator(s.p.M)
	return s
}

func (s *session) selectIt() { params.CurrentSecurityLevel = s.level }

type walk struct {
	c    *vk.C
	r    *rand.Rand
	prev string
}

func run(c *vk.C) {
	r := c.Rand("c26")
	w := &walk{c: c, r: r, prev: "start"}
	var ss []*session
	for _, name := range sets[c.Shard] {
		// use each one a little before the next exists
		var s *session
		c.Guard("first selection of "+name+" after "+w.prev, func() { s = newSession(c, r, name) })
		ss = append(ss, s)
		// every operation once, in a random order: whatever a first use leaves
		// behind must not reach the next profile
		for _, op := range r.Perm(numOps) {
			w.do(s, op, true)
		}
		w.prev = s.name
	}
	steps := c.Pick(46, 1200)
	for i := 0; i < steps; i++ {
		s := ss[r.Intn(len(ss))]
		if s.name == w.prev && r.Intn(3) > 0 {
			continue
		}
		s.selectIt()
		w.recheck(s)
		k := 1 + r.Intn(5)
		for j := 0; j < k; j++ {
			w.step(s)
		}
		if r.Intn(5) == 0 {
			runtime.GC() // empties pools
		}
		w.prev = s.name
		c.Count("selections", 1)
	}
}

func (w *walk) seen(s *session, op string) {
	w.c.Seen("%s>%s|%s|%d", w.prev, s.name, op, len(s.log)/4)
	w.c.Count("op "+op, 1)
}

// recheck repeats earlier calls: they must give the same coefficients, and
// everything made earlier must still read the same.
func (w *walk) recheck(s *session) {
	c := w.c
	g := params.GetTRGSWLv1()
	if params.GetTLWELv0().N != s.n0 || g.N != s.n || g.L != s.l || int(g.BGBIT) != s.bgbit || g.BASEBIT != s.basebit || g.IKS_T != s.iksT || params.GetTLWELv0().ALPHA != s.alpha {
		c.Fail("profile="+s.name+" after "+w.prev, "the profile's parameters have changed")
	}
	for i := 0; i < 2 && len(s.log) > 0; i++ {
		e := s.log[w.r.Intn(len(s.log))]
		cn := fmt.Sprintf("%s repeated under profile=%s after %s", e.name, s.name, w.prev)
		c.Guard(cn, func() {
			if got := e.f(); !orc.Eq(got, e.want) {
				c.Fail(cn, "differs from the first time: %s", orc.Diff(got, e.want))
			}
		})
		w.seen(s, "repeat "+e.name)
	}
	for i := 0; i < 3 && len(s.bits) > 0; i++ {
		b := s.bits[w.r.Intn(len(s.bits))]
		if b.ct.DecryptBool(s.sk.KeyLv0) != b.v {
			c.Fail("profile="+s.name+" after "+w.prev, "an old boolean no longer decrypts to %v", b.v)
		}
		w.seen(s, "old boolean")
	}
	for i := 0; i < 3 && len(s.msgs) > 0; i++ {
		b := s.msgs[w.r.Intn(len(s.msgs))]
		if g := b.ct.DecryptLWEMessage(s.p.M, s.sk.KeyLv0); g != b.v {
			c.Fail("profile="+s.name+" after "+w.prev, "an old message reads %d, was %d", g, b.v)
		}
		w.seen(s, "old message")
	}
}

func (w *walk) bit(s *session) bit {
	if len(s.bits) > 0 && w.r.Intn(3) > 0 {
		return s.bits[w.r.Intn(len(s.bits))]
	}
	v := w.r.Intn(2) == 0
	b := bit{tlwe.NewTLWELv0().EncryptBool(v, s.alpha, s.sk.KeyLv0), v}
	w.checkBit(s, "EncryptBool", b.ct, v, s.alpha)
	s.bits = append(s.bits, b)
	return b
}

func (w *walk) msg(s *session) msg {
	if len(s.msgs) > 0 && w.r.Intn(3) > 0 {
		return s.msgs[w.r.Intn(len(s.msgs))]
	}
	v := w.r.Intn(s.p.M)
	m := msg{tlwe.NewTLWELv0().EncryptLWEMessage(v, s.p.M, s.alpha, s.sk.KeyLv0), v}
	s.msgs = append(s.msgs, m)
	return m
}

func (w *walk) checkBit(s *session, op string, ct *tlwe.TLWELv0, want bool, sig float64) {
	cn := fmt.Sprintf("%s profile=%s after %s", op, s.name, w.prev)
	if len(ct.P) != s.n0+1 {
		w.c.Fail(cn, "result has %d coefficients, want %d", len(ct.P), s.n0+1)
	}
	if e := orc.Err(orc.Phase0(ct, s.sk.KeyLv0), orc.BoolMu(want)); math.Abs(e) > 9*sig || ct.DecryptBool(s.sk.KeyLv0) != want {
		w.c.Fail(cn, "want %v, phase error %g, bound %g", want, e, 9*sig)
	}
}

func (w *walk) keep(s *session, name string, f func() []T, got []T) {
	if len(s.log) < 40 {
		s.log = append(s.log, replay{name, f, append([]T(nil), got...)})
	}
}

func (w *walk) step(s *session) { w.do(s, w.r.Intn(numOps), false) }

// numOps is the number of operations do knows.
const numOps = 20

// do performs one operation; with all set, all its variants.
func (w *walk) do(s *session, op int, all bool) {
	c, r := w.c, w.r
	c.Guard(fmt.Sprintf("operation %d profile=%s after %s", op, s.name, w.prev), func() {
		switch op {
		case 0, 1: // a gate
			for _, x := range some(r, len(orc.Gates2), all && op == 0) {
				g := orc.Gates2[x]
				a, b := w.bit(s), w.bit(s)
				out := g.F(a.ct, b.ct, s.ck)
				w.checkBit(s, g.Name, out, g.T(a.v, b.v), s.p.Sig)
				s.bits = append(s.bits, bit{out, g.T(a.v, b.v)})
				w.keep(s, g.Name, func() []T { return g.F(a.ct, b.ct, s.ck).P }, out.P)
				w.seen(s, g.Name)
			}
		case 2: // multiplexer gate
			a, x, y := w.bit(s), w.bit(s), w.bit(s)
			out := gates.MUX(a.ct, x.ct, y.ct, s.ck)
			want := y.v
			if a.v {
				want = x.v
			}
			w.checkBit(s, "MUX", out, want, s.p.Sig)
			w.seen(s, "MUX")
		case 3: // a batch
			for _, x := range some(r, len(orc.Batches), all) {
				bt := orc.Batches[x]
				k := 1 + r.Intn(12)
				if all {
					k = 1 + r.Intn(5)
				}
				var in [][2]*gates.Ciphertext
				var want []bool
				for i := 0; i < k; i++ {
					a, b := w.bit(s), w.bit(s)
					in = append(in, [2]*gates.Ciphertext{a.ct, b.ct})
					want = append(want, bt.T(a.v, b.v))
				}
				out := bt.F(in, s.ck)
				if len(out) != k {
					c.Fail(bt.Name+" profile="+s.name, "%d results for %d pairs", len(out), k)
				}
				for i := range out {
					w.checkBit(s, bt.Name, out[i], want[i], s.p.Sig)
				}
				s.bits = append(s.bits, bit{out[k-1], want[k-1]})
				w.keep(s, bt.Name, func() []T { return bt.F(in, s.ck)[k-1].P }, out[k-1].P)
				w.seen(s, bt.Name)
			}
		case 4, 5: // programmable bootstrap with new or old evaluators and tables
			var ev *evaluator.Evaluator
			switch r.Intn(4) {
			case 0:
				ev = evaluator.NewEvaluator(s.n)
				s.evs = append(s.evs, ev)
			case 1:
				ev = s.evs[r.Intn(len(s.evs))].ShallowCopy()
			default:
				ev = s.evs[r.Intn(len(s.evs))]
			}
			var t *table
			if len(s.luts) > 0 && r.Intn(2) == 0 {
				t = s.luts[r.Intn(len(s.luts))]
			} else {
				t = &table{f: make([]int, s.p.M)}
				for i := range t.f {
					t.f[i] = r.Intn(s.p.M)
				}
				gen := s.gen
				if r.Intn(2) == 0 {
					gen = lut.NewGenerator(s.p.M)
				}
				t.t = gen.GenLookUpTable(func(x int) int { return t.f[x] })
				if len(t.t.Poly.A) != s.n || len(t.t.Poly.B) != s.n {
					c.Fail("GenLookUpTable profile="+s.name+" after "+w.prev, "table has degree %d, want %d", len(t.t.Poly.B), s.n)
				}
				s.luts = append(s.luts, t)
			}
			m := w.msg(s)
			out := ev.BootstrapLUT(m.ct, t.t, s.ck.BootstrappingKey, s.ck.KeySwitchingKey, s.ck.DecompositionOffset)
			want := t.f[m.v]
			e := orc.Err(orc.Phase0(out, s.sk.KeyLv0), orc.MsgMu(want, s.p.M))
			if got := out.DecryptLWEMessage(s.p.M, s.sk.KeyLv0); got != want || math.Abs(e) > 9*s.p.Sig {
				c.Fail(fmt.Sprintf("BootstrapLUT profile=%s after %s", s.name, w.prev), "message %d gives %d, want %d (phase error %g)", m.v, got, want, e)
			}
			s.msgs = append(s.msgs, msg{out, want})
			if len(s.msgs) > 40 {
				s.msgs = s.msgs[20:]
			}
			w.keep(s, "BootstrapLUT", func() []T {
				return ev.BootstrapLUT(m.ct, t.t, s.ck.BootstrappingKey, s.ck.KeySwitchingKey, s.ck.DecompositionOffset).P
			}, out.P)
			w.seen(s, "BootstrapLUT")
		case 6: // re-encryption and public key
			b := w.bit(s)
			out := proxyreenc.ReencryptTLWELv0(b.ct, s.rk)
			if len(out.P) != s.n0+1 || out.DecryptBool(s.sk2.KeyLv0) != b.v {
				c.Fail(fmt.Sprintf("ReencryptTLWELv0 profile=%s after %s", s.name, w.prev), "%v does not survive", b.v)
			}
			w.keep(s, "ReencryptTLWELv0", func() []T { return proxyreenc.ReencryptTLWELv0(b.ct, s.rk).P }, out.P)
			v := r.Intn(2) == 0
			w.checkBit(s, "PublicKeyLv0.EncryptBool", s.pk.EncryptBool(v, 1e-7), v, 1e-5)
			w.seen(s, "re-encryption")
		case 7: // ring ciphertexts
			pe := s.pes[r.Intn(len(s.pes))]
			if r.Intn(3) == 0 {
				pe = poly.NewEvaluator(s.n)
				s.pes = append(s.pes, pe)
			}
			v := make([]bool, s.n)
			for i := range v {
				v[i] = r.Intn(2) == 0
			}
			x := ring{trlwe.NewTRLWELv1().EncryptBool(v, params.GetTRLWELv1().ALPHA, s.sk.KeyLv1, pe), v}
			if len(s.rings) < 6 {
				s.rings = append(s.rings, x)
			} else {
				x = s.rings[r.Intn(len(s.rings))]
			}
			got := x.ct.DecryptBool(s.sk.KeyLv1, pe)
			if len(got) != s.n {
				c.Fail("ring profile="+s.name, "%d values of %d", len(got), s.n)
			}
			for i := range got {
				if got[i] != x.v[i] {
					c.Fail(fmt.Sprintf("TRLWELv1.DecryptBool profile=%s after %s", s.name, w.prev), "coefficient %d is wrong", i)
				}
			}
			k := r.Intn(s.n)
			l1 := trlwe.SampleExtractIndex(x.ct, k)
			l0 := trgsw.IdentityKeySwitching(l1, s.ck.KeySwitchingKey)
			w.checkBit(s, "extraction and key switch", l0, x.v[k], s.p.Sig)
			w.keep(s, "IdentityKeySwitching", func() []T { return trgsw.IdentityKeySwitching(l1, s.ck.KeySwitchingKey).P }, l0.P)
			w.seen(s, "ring, extraction and key switch")
		case 8: // blind rotation through all implementations agrees in phase
			b := w.bit(s)
			pe := s.pes[0]
			rot := trgsw.BlindRotate(b.ct, s.ck.BlindRotateTestvec, s.ck.BootstrappingKey, s.ck.DecompositionOffset, pe)
			ph := orc.PhaseRing(rot, s.sk.KeyLv1)
			if e := orc.Err(ph[0], orc.BoolMu(b.v)); math.Abs(e) > 9*s.p.Sig {
				c.Fail(fmt.Sprintf("BlindRotate profile=%s after %s", s.name, w.prev), "phase error %g", e)
			}
			w.seen(s, "BlindRotate")
		case 9: // a new secret key has the selected dimensions
			sk := key.NewSecretKey()
			if len(sk.KeyLv0) != s.n0 || len(sk.KeyLv1) != s.n {
				c.Fail(fmt.Sprintf("NewSecretKey profile=%s after %s", s.name, w.prev), "dimensions %d and %d, want %d and %d", len(sk.KeyLv0), len(sk.KeyLv1), s.n0, s.n)
			}
			if a, b := len(tlwe.NewTLWELv0().P), len(tlwe.NewTLWELv1().P); a != s.n0+1 || b != s.n+1 {
				c.Fail(fmt.Sprintf("new ciphertexts profile=%s after %s", s.name, w.prev), "dimensions %d and %d", a, b)
			}
			if x := trlwe.NewTRLWELv1(); len(x.A) != s.n || len(x.B) != s.n {
				c.Fail(fmt.Sprintf("new ring ciphertext profile=%s after %s", s.name, w.prev), "dimension %d", len(x.A))
			}
			if x := trgsw.NewTRGSWLv1(); len(x.TRLWE) != 2*s.l {
				c.Fail(fmt.Sprintf("new gadget ciphertext profile=%s after %s", s.name, w.prev), "%d rows", len(x.TRLWE))
			}
			w.seen(s, "dimensions")
		case 10: // constants and negations
			v := r.Intn(2) == 0
			w.checkBit(s, "Constant", gates.Constant(v), v, 1e-9)
			b := w.bit(s)
			w.checkBit(s, "NOT", gates.NOT(b.ct), !b.v, s.p.Sig)
			w.checkBit(s, "Copy", gates.Copy(b.ct), b.v, s.p.Sig)
			w.seen(s, "constants")
		case 11: // now and then a new cloud key (not for the big ones)
			if s.n > 1024 || r.Intn(4) > 0 || s.basebit > 4 {
				return
			}
			sk := key.NewSecretKey()
			ck := cloudkey.NewCloudKey(sk)
			x := tlwe.NewTLWELv0().EncryptBool(true, s.alpha, sk.KeyLv0)
			y := tlwe.NewTLWELv0().EncryptBool(false, s.alpha, sk.KeyLv0)
			if gates.NAND(x, y, ck).DecryptBool(sk.KeyLv0) != true || gates.AND(x, y, ck).DecryptBool(sk.KeyLv0) != false {
				c.Fail(fmt.Sprintf("new key profile=%s after %s", s.name, w.prev), "gates with a new key are wrong")
			}
			w.seen(s, "new cloud key")
		case 12: // programmable bootstrap with every entry point, small moduli too
			for _, e := range some(r, 5, all) {
				var ms []int
				for m := 2; m <= s.p.M; m *= 2 {
					ms = append(ms, m)
				}
				for _, x := range some(r, len(ms), all) {
					w.pbs(s, e, ms[x])
				}
			}
		case 13:
			w.gadget(s)
		case 14:
			w.prepared(s)
		case 15:
			w.bitLists(s)
		case 16:
			w.largeKey(s)
		case 17:
			w.polynomials(s)
		case 18:
			w.tables(s)
		case 19:
			if all || r.Intn(6) == 0 {
				w.defaults(s)
			}
		}
	})
}

// some gives all indices below n, or one of them.
func some(r *rand.Rand, n int, all bool) []int {
	if all {
		return r.Perm(n)
	}
	return []int{r.Intn(n)}
}

func (w *walk) ev(s *session) *evaluator.Evaluator {
	switch w.r.Intn(4) {
	case 0:
		s.evs = append(s.evs, evaluator.NewEvaluator(s.n))
		return s.evs[len(s.evs)-1]
	case 1:
		return s.evs[w.r.Intn(len(s.evs))].ShallowCopy()
	}
	return s.evs[w.r.Intn(len(s.evs))]
}

func (w *walk) pbs(s *session, entry, m int) {
	c, r := w.c, w.r
	ev := w.ev(s)
	tab := make([]int, m)
	for i := range tab {
		tab[i] = r.Intn(m)
	}
	f := func(x int) int { return tab[x] }
	v := r.Intn(m)
	ct := tlwe.NewTLWELv0().EncryptLWEMessage(v, m, s.alpha, s.sk.KeyLv0)
	bsk, ksk, off := s.ck.BootstrappingKey, s.ck.KeySwitchingKey, s.ck.DecompositionOffset
	var name string
	var call func() *tlwe.TLWELv0
	switch entry {
	case 0:
		name, call = "BootstrapFunc", func() *tlwe.TLWELv0 { return ev.BootstrapFunc(ct, f, m, bsk, ksk, off) }
	case 1:
		name, call = "BootstrapFuncAssign", func() *tlwe.TLWELv0 {
			out := tlwe.NewTLWELv0()
			ev.BootstrapFuncAssign(ct, f, m, bsk, ksk, off, out)
			return out
		}
	default:
		t := lut.NewGenerator(m).GenLookUpTable(f)
		switch entry {
		case 2:
			name, call = "BootstrapLUT", func() *tlwe.TLWELv0 { return ev.BootstrapLUT(ct, t, bsk, ksk, off) }
		case 3:
			name, call = "BootstrapLUTAssign", func() *tlwe.TLWELv0 {
				out := tlwe.NewTLWELv0()
				ev.BootstrapLUTAssign(ct, t, bsk, ksk, off, out)
				return out
			}
		case 4:
			name, call = "BootstrapLUTTemp", func() *tlwe.TLWELv0 { return ev.BootstrapLUTTemp(ct, t, bsk, ksk, off) }
		}
	}
	name = fmt.Sprintf("%s modulus %d", name, m)
	out := orc.CloneLWE(call())
	if len(out.P) != s.n0+1 {
		c.Fail(fmt.Sprintf("%s profile=%s after %s", name, s.name, w.prev), "result has %d coefficients", len(out.P))
	}
	e := orc.Err(orc.Phase0(out, s.sk.KeyLv0), orc.MsgMu(tab[v], m))
	if got := out.DecryptLWEMessage(m, s.sk.KeyLv0); got != tab[v] || math.Abs(e) > 9*s.p.Sig {
		c.Fail(fmt.Sprintf("%s profile=%s after %s", name, s.name, w.prev), "message %d gives %d, want %d (phase error %g)", v, got, tab[v], e)
	}
	w.keep(s, name, func() []T { return orc.CloneLWE(call()).P }, out.P)
	w.seen(s, name)
}

// ringErr is the largest phase error over all coefficients.
func ringErr(got *trlwe.TRLWELv1, key, want []T) float64 {
	worst := 0.0
	for i, x := range orc.PhaseRing(got, key) {
		worst = math.Max(worst, math.Abs(orc.Err(x, want[i])))
	}
	return worst
}

// gadget: encrypted bits, external products and multiplexers of both kinds.
func (w *walk) gadget(s *session) {
	c, r := w.c, w.r
	pe := s.pes[r.Intn(len(s.pes))]
	b := r.Intn(2)
	g := trgsw.NewTRGSWLv1().EncryptTorus(T(b), params.BSKAlpha(), s.sk.KeyLv1, pe)
	gf := trgsw.NewTRGSWLv1FFT(g, pe)
	if len(gf.TRLWEFFT) != 2*s.l || len(trgsw.NewTRGSWLv1FFTDummy(pe).TRLWEFFT) != 2*s.l {
		c.Fail(fmt.Sprintf("gadget ciphertext profile=%s after %s", s.name, w.prev), "wrong number of rows")
	}
	x, y := trlwe.NewTRLWELv1(), trlwe.NewTRLWELv1()
	orc.Fill(r, x.A)
	orc.Fill(r, x.B)
	orc.Fill(r, y.A)
	orc.Fill(r, y.B)
	px, py := orc.PhaseRing(x, s.sk.KeyLv1), orc.PhaseRing(y, s.sk.KeyLv1)
	prod, sel := make([]T, s.n), px
	if b == 1 {
		prod, sel = px, py
	}
	ev := w.ev(s)
	off := s.ck.DecompositionOffset
	tol := 9 * orc.ExtSD(1, orc.Alpha1())
	for _, q := range []struct {
		name string
		f    func() *trlwe.TRLWELv1
		want []T
	}{
		{"ExternalProductAssign", func() *trlwe.TRLWELv1 {
			o := trlwe.NewTRLWELv1()
			ev.ExternalProductAssign(gf, x, off, o)
			return o
		}, prod},
		{"ExternalProductWithFFT", func() *trlwe.TRLWELv1 { return trgsw.ExternalProductWithFFT(gf, x, off, pe) }, prod},
		{"CMuxAssign", func() *trlwe.TRLWELv1 {
			o := trlwe.NewTRLWELv1()
			ev.CMuxAssign(gf, x, y, off, o)
			return o
		}, sel},
		{"CMUX", func() *trlwe.TRLWELv1 { return trgsw.CMUX(x, y, gf, off, pe) }, sel},
	} {
		out := orc.CloneRing(q.f())
		if len(out.A) != s.n || len(out.B) != s.n {
			c.Fail(fmt.Sprintf("%s profile=%s after %s", q.name, s.name, w.prev), "result has dimensions %d and %d", len(out.A), len(out.B))
		}
		if e := ringErr(out, s.sk.KeyLv1, q.want); e > tol {
			c.Fail(fmt.Sprintf("%s profile=%s after %s", q.name, s.name, w.prev), "bit %d: phase error %g, bound %g", b, e, tol)
		}
		w.keep(s, q.name, func() []T { o := q.f(); return append(append([]T(nil), o.A...), o.B...) }, append(append([]T(nil), out.A...), out.B...))
		w.seen(s, q.name)
	}
}

// prepared: gate inputs prepared by an evaluator, bootstrapped by it, and the
// evaluator's and the batch blind rotation.
func (w *walk) prepared(s *session) {
	c, r := w.c, w.r
	a, b := w.bit(s), w.bit(s)
	bsk, ksk, off := s.ck.BootstrappingKey, s.ck.KeySwitchingKey, s.ck.DecompositionOffset
	ev := w.ev(s)
	switch r.Intn(3) {
	case 0:
		out := orc.CloneLWE(ev.Bootstrap(ev.PrepareNAND(a.ct, b.ct), s.ck.BlindRotateTestvec, bsk, ksk, off))
		w.checkBit(s, "PrepareNAND", out, !(a.v && b.v), s.p.Sig)
		w.seen(s, "PrepareNAND")
	case 1:
		out := tlwe.NewTLWELv0()
		ev.BootstrapAssign(ev.PrepareOR(a.ct, b.ct), s.ck.BlindRotateTestvec, bsk, ksk, off, out)
		w.checkBit(s, "PrepareOR", out, a.v || b.v, s.p.Sig)
		w.seen(s, "PrepareOR")
	case 2:
		out := orc.CloneLWE(ev.Bootstrap(ev.PrepareXOR(a.ct, b.ct), s.ck.BlindRotateTestvec, bsk, ksk, off))
		w.checkBit(s, "PrepareXOR", out, a.v != b.v, s.p.Sig)
		w.seen(s, "PrepareXOR")
	}
	rot := trlwe.NewTRLWELv1()
	ev.BlindRotateAssign(b.ct, s.ck.BlindRotateTestvec, bsk, off, rot)
	if e := orc.Err(orc.PhaseRing(rot, s.sk.KeyLv1)[0], orc.BoolMu(b.v)); math.Abs(e) > 9*s.p.Sig {
		c.Fail(fmt.Sprintf("BlindRotateAssign profile=%s after %s", s.name, w.prev), "phase error %g", e)
	}
	w.seen(s, "BlindRotateAssign")
	in := []*tlwe.TLWELv0{a.ct, b.ct, a.ct}
	for i, x := range trgsw.BatchBlindRotate(in, s.ck.BlindRotateTestvec, bsk, off) {
		want := []bool{a.v, b.v, a.v}[i]
		if len(x.A) != s.n {
			c.Fail(fmt.Sprintf("BatchBlindRotate profile=%s after %s", s.name, w.prev), "dimension %d", len(x.A))
		}
		if e := orc.Err(orc.PhaseRing(x, s.sk.KeyLv1)[0], orc.BoolMu(want)); math.Abs(e) > 9*s.p.Sig {
			c.Fail(fmt.Sprintf("BatchBlindRotate profile=%s after %s", s.name, w.prev), "phase error %g", e)
		}
	}
	w.seen(s, "BatchBlindRotate")
}

func (w *walk) bitLists(s *session) {
	x := uint16(w.r.Uint32())
	ct := bitutils.EncryptBits(bitutils.U16ToBits(x), s.alpha, s.sk.KeyLv0)
	for i, b := range ct {
		w.checkBit(s, "EncryptBits", b, x>>i&1 == 1, s.alpha)
	}
	if got := bitutils.ConvertU16(bitutils.DecryptBits(ct, s.sk.KeyLv0)); got != x {
		w.c.Fail(fmt.Sprintf("DecryptBits profile=%s after %s", s.name, w.prev), "%d comes back as %d", x, got)
	}
	w.seen(s, "bit lists")
}

// largeKey: ciphertexts of the large dimension, the key switch in both forms
// and the linear operations.
func (w *walk) largeKey(s *session) {
	c, r := w.c, w.r
	v := r.Intn(2) == 0
	ct := tlwe.NewTLWELv1().EncryptBool(v, params.GetTLWELv1().ALPHA, s.sk.KeyLv1)
	if len(ct.P) != s.n+1 || ct.DecryptBool(s.sk.KeyLv1) != v {
		c.Fail(fmt.Sprintf("TLWELv1 profile=%s after %s", s.name, w.prev), "%v does not survive", v)
	}
	if e := orc.Err(orc.Phase(ct.P, s.sk.KeyLv1), orc.BoolMu(v)); math.Abs(e) > 9*params.GetTLWELv1().ALPHA+1e-9 {
		c.Fail(fmt.Sprintf("TLWELv1 profile=%s after %s", s.name, w.prev), "phase error %g", e)
	}
	out := tlwe.NewTLWELv0()
	orc.Mixed(r, out.P)
	trgsw.IdentityKeySwitchingAssign(ct, s.ck.KeySwitchingKey, out)
	w.checkBit(s, "IdentityKeySwitchingAssign", out, v, s.p.Sig)
	a, b := tlwe.NewTLWELv0(), tlwe.NewTLWELv0()
	orc.Fill(r, a.P)
	orc.Fill(r, b.P)
	k := T(r.Uint32())
	sum, dif, neg, am, sm := a.Add(b), a.Sub(b), a.Neg(), a.AddMul(b, k), a.SubMul(b, k)
	for _, x := range []*tlwe.TLWELv0{sum, dif, neg, am, sm} {
		if len(x.P) != s.n0+1 {
			c.Fail(fmt.Sprintf("linear operations profile=%s after %s", s.name, w.prev), "result has %d coefficients", len(x.P))
		}
	}
	for i := range a.P {
		if sum.P[i] != a.P[i]+b.P[i] || dif.P[i] != a.P[i]-b.P[i] || neg.P[i] != -a.P[i] || am.P[i] != a.P[i]+k*b.P[i] || sm.P[i] != a.P[i]-k*b.P[i] {
			c.Fail(fmt.Sprintf("linear operations profile=%s after %s", s.name, w.prev), "coefficient %d is wrong", i)
		}
	}
	w.seen(s, "large-key ciphertexts and linear operations")
}

// polynomials: products and rotations of the selected degree.
func (w *walk) polynomials(s *session) {
	c, r := w.c, w.r
	pe := s.pes[r.Intn(len(s.pes))]
	if r.Intn(2) == 0 {
		pe = poly.NewEvaluator(s.n)
		s.pes = append(s.pes, pe)
	}
	a, b := poly.NewPoly(s.n), poly.NewPoly(s.n)
	for i := range a.Coeffs {
		a.Coeffs[i] = T(r.Intn(65) - 32)
	}
	orc.Fill(r, b.Coeffs)
	cn := fmt.Sprintf("polynomial operations profile=%s after %s", s.name, w.prev)
	if got, want := pe.MulPoly(a, b).Coeffs, orc.Mul(a.Coeffs, b.Coeffs); !orc.Eq(got, want) {
		if d, i := orc.MaxDist(got, want); d > 8 {
			c.Fail(cn, "product: coefficient %d is off by %d", i, d)
		}
	}
	k := r.Intn(2 * s.n)
	if got, want := pe.PolyMulWithXK(b.Coeffs, k), orc.Rot(b.Coeffs, k); len(got) != s.n {
		c.Fail(cn, "rotation has %d coefficients", len(got))
	} else if d, i := orc.MaxDist(got, want); d > 1 {
		c.Fail(cn, "rotation by %d: coefficient %d is off by %d", k, i, d)
	}
	g := params.GetTRGSWLv1()
	dec := make([]poly.Poly, g.L)
	for i := range dec {
		dec[i] = poly.NewPoly(s.n)
	}
	poly.DecomposePolyAssign(b.Coeffs, int(g.BGBIT), g.L, s.ck.DecompositionOffset, dec)
	for i, x := range b.Coeffs {
		var sum T
		for l := range dec {
			d := int32(dec[l].Coeffs[i])
			if d > int32(g.BG/2) || d < -int32(g.BG/2) {
				c.Fail(cn, "digit %d of base %d", d, g.BG)
			}
			sum += T(d) << (32 - (l+1)*int(g.BGBIT))
		}
		if rest := 32 - g.L*int(g.BGBIT); orc.Dist(sum, x) > int64(1)<<rest/2 {
			c.Fail(cn, "decomposition of %#x gives %#x", uint32(x), uint32(sum))
		}
	}
	w.seen(s, "polynomial operations")
}

// tables: generators and encoders for several moduli.
func (w *walk) tables(s *session) {
	c, r := w.c, w.r
	for _, m := range []int{2, 4, s.p.M, 2 * s.p.M} {
		gen := lut.NewGenerator(m)
		tab := make([]int, m)
		for i := range tab {
			tab[i] = r.Intn(m)
		}
		t := lut.NewLookUpTable()
		gen.GenLookUpTableAssign(func(x int) int { return tab[x] }, t)
		cn := fmt.Sprintf("generator for modulus %d profile=%s after %s", m, s.name, w.prev)
		if len(t.Poly.B) != s.n || len(t.Poly.A) != s.n {
			c.Fail(cn, "table has degree %d", len(t.Poly.B))
		}
		for x := 0; x < m; x++ { // in the middle of each message's range
			if want, got := orc.MsgMu(tab[x], m), t.Poly.B[x*s.n/m]; orc.Dist(got, want) > 1 {
				c.Fail(cn, "entry of message %d is %#x, want %#x", x, uint32(got), uint32(want))
			}
		}
		for k := 0; k < 40; k++ {
			x := T(r.Uint32())
			num := uint64(x) * uint64(s.n)
			q, rem := num>>32, num&0xffffffff
			if rem == 1<<31 {
				continue
			}
			if rem > 1<<31 {
				q++
			}
			if i := gen.ModSwitch(x); i != int(q)%s.n {
				c.Fail(cn, "ModSwitch(%#x) = %d, want %d", uint32(x), i, int(q)%s.n)
			}
		}
		w.seen(s, fmt.Sprintf("generator modulus %d", m))
	}
}

// defaults: re-encryption and public keys with their default settings.
func (w *walk) defaults(s *session) {
	c, r := w.c, w.r
	cn := fmt.Sprintf("default re-encryption key profile=%s after %s", s.name, w.prev)
	rk := proxyreenc.NewProxyReencryptionKeySymmetric(s.sk.KeyLv0, s.sk2.KeyLv0)
	v := r.Intn(2) == 0
	ct := tlwe.NewTLWELv0().EncryptBool(v, 1e-7, s.sk.KeyLv0)
	out := proxyreenc.ReencryptTLWELv0(ct, rk)
	if len(out.P) != s.n0+1 || out.DecryptBool(s.sk2.KeyLv0) != v {
		c.Fail(cn, "%v does not survive", v)
	}
	pk := proxyreenc.NewPublicKeyLv0(s.sk2.KeyLv0)
	if len(pk.Encryptions) != 2*s.n0 {
		c.Fail(cn, "public key has %d samples, want %d", len(pk.Encryptions), 2*s.n0)
	}
	e := pk.EncryptF64(0.25, 0)
	if d := orc.Err(orc.Phase0(e, s.sk2.KeyLv0), 1<<30); math.Abs(d) > 9*s.alpha*math.Sqrt(float64(s.n0)) {
		c.Fail(cn, "public key encryption has phase error %g", d)
	}
	ak := proxyreenc.NewProxyReencryptionKeyAsymmetricWithParams(s.sk.KeyLv0, proxyreenc.NewPublicKeyLv0WithParams(s.sk2.KeyLv0, 12, 1e-8), 1e-8, 3, 6)
	out = proxyreenc.ReencryptTLWELv0(ct, ak)
	if len(out.P) != s.n0+1 || out.DecryptBool(s.sk2.KeyLv0) != v {
		c.Fail(cn, "asymmetric: %v does not survive", v)
	}
	w.seen(s, "default keys")
}
