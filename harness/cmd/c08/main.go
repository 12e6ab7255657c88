// C08: operations never change their inputs, and results stay intact.
//
// Every value the program owns is registered with a hash. After every operation
// of a random history all of them are re-hashed; only the operation's declared
// output may differ.
package main

import (
	"fmt"
	"math/rand"
	"strings"
	"unsafe"

	"github.com/thedonutfactory/go-tfhe/bitutils"
	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"

	"verif/orc"
	"verif/vk"
)

type T = params.Torus

var shardProfiles = []string{"128", "uint2", "uint2", "80", "uint3", "uint4", "uint5", "110", "uint1", "uint2"}

func main() {
	vk.Main(vk.Spec{
		Prop: "C08",
		Rule: "one evaluation = one operation of a random history after which every registered input, table, key and earlier result is re-hashed; signature (profile, operation, sharing of its arguments, operation before)",
		Assumptions: []string{
			"results of Bootstrap and BootstrapLUTTemp are watched for three further bootstraps on the same evaluator, as documented, and not across a reset of its buffers",
			"ring results of trgsw.ExternalProductWithFFT, CMUX and BlindRotate live in the polynomial evaluator passed in and are not watched after the call",
			"the whole cloud key is re-hashed every few operations, so a change of it is attributed to a short window",
		},
		Shards:   func(string) int { return len(shardProfiles) },
		MinEvals: 1500,
		Run:      run,
	})
}

type entry struct {
	name string
	v    []T
	h    uint64
}

type lwe struct {
	ct *tlwe.TLWELv0
	id int
}

type temp struct {
	ct   *tlwe.TLWELv0
	h    uint64
	ev   int
	left int
	name string
}

type mon struct {
	c     *vk.C
	p     orc.Profile
	k     *orc.Keys
	r     *rand.Rand
	n     int
	reg   map[int]*entry
	next  int
	lwes  []lwe
	rings []*trlwe.TRLWELv1
	ringI []int
	lv1   []*tlwe.TLWELv1
	luts  []*lut.LookUpTable
	mods  []int
	gsw   []*trgsw.TRGSWLv1FFT
	gswH  []uint64
	evs   []*evaluator.Evaluator
	pes   []*poly.Evaluator
	pk    *proxyreenc.PublicKeyLv0
	rk    *proxyreenc.ProxyReencryptionKey
	sk2   *key.SecretKey
	craft []*tlwe.TLWELv0
	temps []temp
	ckH   uint64
	hist  []string
}

func (m *mon) add(name string, v []T) int {
	id := m.next
	m.next++
	m.reg[id] = &entry{name, v, orc.HashT(v)}
	return id
}

// apart demands that a new result does not live in somebody else's storage.
func (m *mon) apart(name string, v []T) {
	lo := func(v []T) uintptr { return uintptr(unsafe.Pointer(&v[0])) }
	meet := func(w []T) bool {
		return lo(v) < lo(w)+4*uintptr(len(w)) && lo(w) < lo(v)+4*uintptr(len(v))
	}
	for _, e := range m.reg {
		if meet(e.v) {
			m.c.Fail("result of "+name+" "+m.p.Name, "shares its storage with %s", e.name)
		}
	}
	for _, t := range m.temps {
		if meet(t.ct.P) {
			m.c.Fail("result of "+name+" "+m.p.Name, "shares its storage with temporary %s", t.name)
		}
	}
	m.c.Count("new_results_apart", 1)
}

func (m *mon) addLWE(name string, ct *tlwe.TLWELv0) {
	m.apart(name, ct.P)
	id := m.add(name, ct.P)
	if len(m.lwes) < 90 {
		m.lwes = append(m.lwes, lwe{ct, id})
		return
	}
	i := 8 + m.r.Intn(len(m.lwes)-8)
	delete(m.reg, m.lwes[i].id)
	m.lwes[i] = lwe{ct, id}
}

func (m *mon) addRing(name string, ct *trlwe.TRLWELv1) {
	m.apart(name+".A", ct.A)
	m.apart(name+".B", ct.B)
	m.rings = append(m.rings, ct)
	m.ringI = append(m.ringI, m.add(name+".A", ct.A), m.add(name+".B", ct.B))
	if len(m.rings) > 16 {
		i := 4 + m.r.Intn(12)
		delete(m.reg, m.ringI[2*i])
		delete(m.reg, m.ringI[2*i+1])
		m.rings = append(m.rings[:i], m.rings[i+1:]...)
		m.ringI = append(m.ringI[:2*i], m.ringI[2*i+2:]...)
	}
}

func (m *mon) pick() *tlwe.TLWELv0 {
	// sometimes a temporary result that is still valid
	if len(m.temps) > 0 && m.r.Intn(8) == 0 {
		return m.temps[m.r.Intn(len(m.temps))].ct
	}
	if m.r.Intn(5) == 0 {
		return m.craft[m.r.Intn(len(m.craft))]
	}
	return m.lwes[m.r.Intn(len(m.lwes))].ct
}

// factor is a multiplier, one of the special ones more often than not.
func (m *mon) factor() T {
	if m.r.Intn(3) == 0 {
		return T(m.r.Uint32())
	}
	return []T{0, 0, 1, 1, 2, 0xffffffff, 0x80000000}[m.r.Intn(7)]
}

func (m *mon) ring() *trlwe.TRLWELv1 { return m.rings[m.r.Intn(len(m.rings))] }

// check re-hashes everything.
func (m *mon) check(op string, full bool) {
	where := fmt.Sprintf("after %s, profile=%s, history ...%s", op, m.p.Name, strings.Join(m.hist[max(0, len(m.hist)-6):], " > "))
	for _, e := range m.reg {
		if orc.HashT(e.v) != e.h {
			m.c.Fail(where, "%s was changed", e.name)
		}
	}
	for i, g := range m.gsw {
		if orc.HashGSW(g) != m.gswH[i] {
			m.c.Fail(where, "encrypted bit %d was changed", i)
		}
	}
	for _, t := range m.temps {
		if orc.HashT(t.ct.P) != t.h {
			m.c.Fail(where, "temporary %s changed, %d further bootstraps were still allowed", t.name, t.left)
		}
	}
	m.c.Count("values_rehashed", int64(len(m.reg)+len(m.gsw)+len(m.temps)))
	if full {
		if orc.HashCK(m.k.CK) != m.ckH {
			m.c.Fail(where, "the cloud key was changed")
		}
		m.c.Count("cloud_key_rehashed", 1)
	}
}

// boots tells that evaluator ev does k bootstraps now: older temporaries age.
func (m *mon) boots(ev, k int) {
	var keep []temp
	for _, t := range m.temps {
		if t.ev == ev {
			t.left -= k
		}
		if t.left >= 0 {
			keep = append(keep, t)
		}
	}
	m.temps = keep
}

func run(c *vk.C) {
	p := orc.ByName(shardProfiles[c.Shard])
	m := &mon{c: c, p: p, k: orc.KeysFor(p), r: c.Rand("c08"), reg: map[int]*entry{}}
	r := m.r
	n := params.GetTRGSWLv1().N
	m.n = n
	alpha := params.GetTLWELv0().ALPHA
	sk := m.k.SK
	m.add("secret key (small)", sk.KeyLv0)
	m.add("secret key (large)", sk.KeyLv1)
	m.sk2 = key.NewSecretKey()
	m.add("second secret key (small)", m.sk2.KeyLv0)
	m.add("second secret key (large)", m.sk2.KeyLv1)
	for i := 0; i < 12; i++ {
		m.addLWE(fmt.Sprintf("fresh input %d", i), tlwe.NewTLWELv0().EncryptBool(i%2 == 0, alpha, sk.KeyLv0))
	}
	// ciphertexts at the boundaries of rotation: bodies that round to no turn, a
	// full turn and half a turn, also after a gate has added two of them, masks
	// of zeros, of largest values and of random ones
	for i := 0; i < 30; i++ {
		ct := tlwe.NewTLWELv0()
		l := len(ct.P) - 1
		switch i % 5 {
		case 0:
		case 1:
			for q := range ct.P[:l] {
				ct.P[q] = 0xffffffff
			}
		default:
			orc.Fill(r, ct.P[:l])
		}
		ct.P[l] = T([]uint32{0, 0xffffffff, 0x80000000, 0x7fffffff, 1}[i/5%5])
		if i >= 20 {
			ct.P[l] = T(uint32(i)<<28) - T(i/5%2)
		}
		m.craft = append(m.craft, ct)
		m.add(fmt.Sprintf("boundary input %d", i), ct.P)
	}
	for i := 0; i < 3; i++ {
		m.evs = append(m.evs, evaluator.NewEvaluator(n))
		m.pes = append(m.pes, poly.NewEvaluator(n))
	}
	m.evs[2] = m.evs[0].ShallowCopy()
	m.pes[2] = m.pes[0].ShallowCopy()
	for i := 0; i < 4; i++ {
		f := make([]float64, n)
		for j := range f {
			f[j] = r.Float64()
		}
		m.addRing(fmt.Sprintf("ring input %d", i), trlwe.NewTRLWELv1().EncryptF64(f, params.GetTRLWELv1().ALPHA, sk.KeyLv1, m.pes[0]))
	}
	for i := 0; i < 4; i++ {
		t := tlwe.NewTLWELv1().EncryptF64(r.Float64(), params.GetTLWELv1().ALPHA, sk.KeyLv1)
		m.lv1 = append(m.lv1, t)
		m.add(fmt.Sprintf("large ciphertext %d", i), t.P)
	}
	for i := 0; i < 4; i++ {
		mod := []int{2, 4, 3, p.M}[i]
		t := lut.NewGenerator(mod).GenLookUpTable(func(x int) int { return (x*7 + i) % mod })
		m.luts = append(m.luts, t)
		m.add(fmt.Sprintf("table %d (mask)", i), t.Poly.A)
		m.add(fmt.Sprintf("table %d", i), t.Poly.B)
	}
	// a general test vector: with a mask part
	tv := trlwe.NewTRLWELv1()
	orc.Fill(r, tv.A)
	orc.Fill(r, tv.B)
	m.add("general test vector (mask)", tv.A)
	m.add("general test vector", tv.B)
	for i := 0; i < 2; i++ {
		g := trgsw.NewTRGSWLv1().EncryptTorus(T(i), params.BSKAlpha(), sk.KeyLv1, m.pes[0])
		for j, row := range g.TRLWE {
			m.add(fmt.Sprintf("gadget row %d.A", j), row.A)
			m.add(fmt.Sprintf("gadget row %d.B", j), row.B)
		}
		f := trgsw.NewTRGSWLv1FFT(g, m.pes[0])
		m.gsw = append(m.gsw, f)
		m.gswH = append(m.gswH, orc.HashGSW(f))
	}
	m.pk = proxyreenc.NewPublicKeyLv0WithParams(m.sk2.KeyLv0, 12, 1e-8)
	for i, e := range m.pk.Encryptions {
		m.add(fmt.Sprintf("public key sample %d", i), e.P)
	}
	m.rk = proxyreenc.NewProxyReencryptionKeySymmetricWithParams(sk.KeyLv0, m.sk2.KeyLv0, 1e-8, 2, 2)
	for i := 0; i < len(m.rk.KeyEncryptions); i += 17 {
		m.add(fmt.Sprintf("re-encryption key entry %d", i), m.rk.KeyEncryptions[i].P)
	}
	m.ckH = orc.HashCK(m.k.CK)
	m.check("set-up", true)

	ops := m.ops(tv, alpha)
	names := make([]string, 0, len(ops))
	for _, o := range ops {
		names = append(names, o.name)
	}
	c.Note("profile %s: %d operations: %s", p.Name, len(ops), strings.Join(names, " "))
	weight := 0
	budget := c.Pick(300, 12000) // bootstraps
	if n == 2048 {
		budget = c.Pick(110, 4000)
	}
	if n == 512 {
		budget = c.Pick(550, 20000)
	}
	prev := ""
	for i := 0; weight < budget; i++ {
		o := ops[i%len(ops)]
		if i >= len(ops) { // first every operation once, then at random
			o = ops[r.Intn(len(ops))]
		}
		m.hist = append(m.hist, o.name)
		weight += o.cost
		c.Guard(fmt.Sprintf("%s profile=%s", o.name, p.Name), o.f)
		m.check(o.name, i < len(ops) && o.cost > 0 || i%12 == 0)
		c.Seen("%s|%s|%s|%d", p.Name, o.name, prev, len(m.temps))
		c.Count("op_"+o.name, 1)
		prev = o.name
	}
	m.check("the last operation", true)
	for i := range m.rk.KeyEncryptions {
		if i%4 == 0 {
			for _, x := range m.rk.KeyEncryptions[i].P {
				if x != 0 {
					c.Fail("re-encryption key", "unused entry %d was changed", i)
				}
			}
		}
	}
}

type op struct {
	name string
	cost int
	f    func()
}

func (m *mon) ops(tv *trlwe.TRLWELv1, alpha float64) []op {
	r, ck, n := m.r, m.k.CK, m.n
	sk := m.k.SK
	bsk, ksk, do := ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset
	var ops []op
	def := func(name string, cost int, f func()) { ops = append(ops, op{name, cost, f}) }
	for _, g := range orc.Gates2 {
		g := g
		def("gates."+g.Name, 1, func() {
			a, b := m.pick(), m.pick()
			if r.Intn(5) == 0 {
				b = a
			}
			m.addLWE("result of "+g.Name, g.F(a, b, ck))
		})
	}
	def("gates.MUX", 3, func() { m.addLWE("result of MUX", gates.MUX(m.pick(), m.pick(), m.pick(), ck)) })
	def("gates.NOT", 0, func() { m.addLWE("result of NOT", gates.NOT(m.pick())) })
	def("gates.Copy", 0, func() { m.addLWE("result of Copy", gates.Copy(m.pick())) })
	def("gates.Constant", 0, func() { m.addLWE("a constant", gates.Constant(r.Intn(2) == 0)) })
	for _, g := range orc.Batches {
		g := g
		def("gates."+g.Name, 4, func() {
			k := r.Intn(8)
			in := make([][2]*gates.Ciphertext, k)
			for i := range in {
				in[i] = [2]*gates.Ciphertext{m.pick(), m.pick()}
				if r.Intn(5) == 0 {
					in[i][1] = in[i][0]
				}
			}
			cp := append([][2]*gates.Ciphertext(nil), in...)
			for i, ct := range g.F(in, ck) {
				m.addLWE(fmt.Sprintf("item %d of %s", i, g.Name), ct)
			}
			for i := range in {
				if in[i] != cp[i] {
					m.c.Fail(g.Name, "the list of pairs was changed at %d", i)
				}
			}
		})
	}
	def("Add", 0, func() { m.addLWE("sum", m.pick().Add(m.pick())) })
	def("Sub", 0, func() { m.addLWE("difference", m.pick().Sub(m.pick())) })
	def("Neg", 0, func() { m.addLWE("negation", m.pick().Neg()) })
	def("Mul", 0, func() { m.addLWE("product", m.pick().Mul(m.pick())) })
	def("AddMul", 0, func() { m.addLWE("multiple sum", m.pick().AddMul(m.pick(), m.factor())) })
	def("SubMul", 0, func() { m.addLWE("multiple difference", m.pick().SubMul(m.pick(), m.factor())) })
	def("AddAssign", 0, func() {
		out := tlwe.NewTLWELv0()
		m.pick().AddAssign(m.pick(), out)
		m.addLWE("assigned sum", out)
	})
	prep := func(name string, f func(e *evaluator.Evaluator, a, b *tlwe.TLWELv0) *tlwe.TLWELv0) {
		def("evaluator."+name, 0, func() { m.addLWE("result of "+name, f(m.evs[r.Intn(3)], m.pick(), m.pick())) })
	}
	prep("PrepareNAND", func(e *evaluator.Evaluator, a, b *tlwe.TLWELv0) *tlwe.TLWELv0 { return e.PrepareNAND(a, b) })
	prep("PrepareAND", func(e *evaluator.Evaluator, a, b *tlwe.TLWELv0) *tlwe.TLWELv0 { return e.PrepareAND(a, b) })
	prep("PrepareOR", func(e *evaluator.Evaluator, a, b *tlwe.TLWELv0) *tlwe.TLWELv0 { return e.PrepareOR(a, b) })
	prep("PrepareXOR", func(e *evaluator.Evaluator, a, b *tlwe.TLWELv0) *tlwe.TLWELv0 { return e.PrepareXOR(a, b) })

	// input of a bootstrap on evaluator e: not a temporary that this very
	// bootstrap is allowed to overwrite
	inFor := func(e int) *tlwe.TLWELv0 {
		for {
			ct := m.pick()
			ok := true
			for _, t := range m.temps {
				if t.ct == ct && t.ev == e && t.left < 1 {
					ok = false
				}
			}
			if ok {
				return ct
			}
		}
	}
	keepTemp := func(e int, name string, ct *tlwe.TLWELv0) {
		m.temps = append(m.temps, temp{ct, orc.HashT(ct.P), e, 3, name})
	}
	tvs := []*trlwe.TRLWELv1{ck.BlindRotateTestvec, tv}
	for rep := 0; rep < 4; rep++ { // temporaries often, so that they meet each other
		def("evaluator.Bootstrap", 1, func() {
			e := r.Intn(3)
			in, t := inFor(e), tvs[r.Intn(2)]
			m.boots(e, 1)
			keepTemp(e, "result of Bootstrap", m.evs[e].Bootstrap(in, t, bsk, ksk, do))
		})
		def("evaluator.BootstrapLUTTemp", 1, func() {
			e := r.Intn(3)
			in, t := inFor(e), m.luts[r.Intn(len(m.luts))]
			m.boots(e, 1)
			keepTemp(e, "result of BootstrapLUTTemp", m.evs[e].BootstrapLUTTemp(in, t, bsk, ksk, do))
		})
	}
	def("evaluator.BootstrapAssign", 1, func() {
		e := r.Intn(3)
		in := inFor(e)
		m.boots(e, 1)
		out := tlwe.NewTLWELv0()
		m.evs[e].BootstrapAssign(in, tvs[r.Intn(2)], bsk, ksk, do, out)
		m.addLWE("result of BootstrapAssign", out)
	})
	def("evaluator.BootstrapLUT", 1, func() {
		e := r.Intn(3)
		in := inFor(e)
		m.boots(e, 1)
		m.addLWE("result of BootstrapLUT", m.evs[e].BootstrapLUT(in, m.luts[r.Intn(len(m.luts))], bsk, ksk, do))
	})
	def("evaluator.BootstrapLUTAssign", 1, func() {
		e := r.Intn(3)
		in := inFor(e)
		m.boots(e, 1)
		out := tlwe.NewTLWELv0()
		m.evs[e].BootstrapLUTAssign(in, m.luts[r.Intn(len(m.luts))], bsk, ksk, do, out)
		m.addLWE("result of BootstrapLUTAssign", out)
	})
	def("evaluator.BootstrapFunc", 1, func() {
		e := r.Intn(3)
		in := inFor(e)
		m.boots(e, 1)
		m.addLWE("result of BootstrapFunc", m.evs[e].BootstrapFunc(in, func(x int) int { return x + 1 }, 2+r.Intn(3), bsk, ksk, do))
	})
	def("evaluator.BootstrapFuncAssign", 1, func() {
		e := r.Intn(3)
		in := inFor(e)
		m.boots(e, 1)
		out := tlwe.NewTLWELv0()
		m.evs[e].BootstrapFuncAssign(in, func(x int) int { return -x }, 2+r.Intn(3), bsk, ksk, do, out)
		m.addLWE("result of BootstrapFuncAssign", out)
	})
	def("evaluator.BlindRotateAssign", 1, func() {
		e := r.Intn(3)
		in := inFor(e)
		out := trlwe.NewTRLWELv1()
		m.evs[e].BlindRotateAssign(in, tvs[r.Intn(2)], bsk, do, out)
		m.addRing("result of BlindRotateAssign", out)
	})
	def("evaluator.ExternalProductAssign", 0, func() {
		out := trlwe.NewTRLWELv1()
		m.evs[r.Intn(3)].ExternalProductAssign(m.gsw[r.Intn(2)], m.ring(), do, out)
		m.addRing("result of ExternalProductAssign", out)
	})
	def("evaluator.CMuxAssign", 0, func() {
		out := trlwe.NewTRLWELv1()
		m.evs[r.Intn(3)].CMuxAssign(m.gsw[r.Intn(2)], m.ring(), m.ring(), do, out)
		m.addRing("result of CMuxAssign", out)
	})
	def("evaluator.ResetBuffers", 0, func() {
		e := r.Intn(3)
		m.boots(e, 4)
		m.evs[e].ResetBuffers()
	})
	def("evaluator.ShallowCopy", 0, func() {
		m.boots(2, 4)
		m.evs[2] = m.evs[r.Intn(2)].ShallowCopy()
		m.pes[2] = m.pes[r.Intn(2)].ShallowCopy()
	})
	def("trgsw.ExternalProductWithFFT", 0, func() {
		trgsw.ExternalProductWithFFT(m.gsw[r.Intn(2)], m.ring(), do, m.pes[r.Intn(3)])
	})
	def("trgsw.CMUX", 0, func() {
		o := trgsw.CMUX(m.ring(), m.ring(), m.gsw[r.Intn(2)], do, m.pes[r.Intn(3)])
		m.addRing("copy of a CMUX result", orc.CloneRing(o))
	})
	def("trgsw.BlindRotate", 1, func() {
		o := trgsw.BlindRotate(m.pick(), tvs[r.Intn(2)], bsk, do, m.pes[r.Intn(3)])
		m.addRing("copy of a BlindRotate result", orc.CloneRing(o))
	})
	def("trgsw.BatchBlindRotate", 4, func() {
		in := make([]*tlwe.TLWELv0, 1+r.Intn(5))
		for i := range in {
			in[i] = m.pick()
		}
		for i, o := range trgsw.BatchBlindRotate(in, tvs[r.Intn(2)], bsk, do) {
			m.addRing(fmt.Sprintf("item %d of BatchBlindRotate", i), o)
		}
	})
	def("trgsw.IdentityKeySwitching", 0, func() {
		m.addLWE("result of IdentityKeySwitching", trgsw.IdentityKeySwitching(m.lv1[r.Intn(len(m.lv1))], ksk))
	})
	def("trgsw.IdentityKeySwitchingAssign", 0, func() {
		out := tlwe.NewTLWELv0()
		trgsw.IdentityKeySwitchingAssign(m.lv1[r.Intn(len(m.lv1))], ksk, out)
		m.addLWE("result of IdentityKeySwitchingAssign", out)
	})
	def("trgsw.NewTRGSWLv1FFT", 0, func() {
		g := trgsw.NewTRGSWLv1()
		for i := range g.TRLWE {
			g.TRLWE[i] = m.ring()
		}
		trgsw.NewTRGSWLv1FFT(g, m.pes[r.Intn(3)])
		trlwe.NewTRLWELv1FFT(m.ring(), m.pes[r.Intn(3)])
	})
	def("trlwe.SampleExtract", 0, func() {
		k := r.Intn(n)
		x := m.ring()
		a := trlwe.SampleExtractIndex(x, k)
		b := tlwe.NewTLWELv1()
		trlwe.SampleExtractIndexAssign(x, k, b)
		i := r.Intn(len(m.lv1))
		for id, e := range m.reg {
			if &e.v[0] == &m.lv1[i].P[0] {
				delete(m.reg, id)
				break
			}
		}
		m.lv1[i] = a
		m.add("extracted sample", a.P)
	})
	def("encryption and decryption", 0, func() {
		ct := tlwe.NewTLWELv0().EncryptBool(r.Intn(2) == 0, alpha, sk.KeyLv0)
		ct.DecryptBool(sk.KeyLv0)
		m.addLWE("fresh encryption", ct)
		m.addLWE("fresh message", tlwe.NewTLWELv0().EncryptLWEMessage(r.Intn(2), 2, alpha, sk.KeyLv0))
		m.pick().DecryptBool(sk.KeyLv0)
		m.pick().DecryptLWEMessage(4, sk.KeyLv0)
		m.lv1[0].DecryptBool(sk.KeyLv1)
		m.ring().DecryptBool(sk.KeyLv1, m.pes[r.Intn(3)])
		bs := bitutils.EncryptBits([]bool{true, false, true}, alpha, sk.KeyLv0)
		bitutils.DecryptBits(bs, sk.KeyLv0)
		for _, b := range bs {
			m.addLWE("encrypted bit", b)
		}
		f := make([]bool, n)
		m.addRing("fresh ring encryption", trlwe.NewTRLWELv1().EncryptBool(f, 1e-8, sk.KeyLv1, m.pes[r.Intn(3)]))
	})
	def("public-key encryption", 0, func() {
		m.addLWE("public-key ciphertext", m.pk.EncryptBool(r.Intn(2) == 0, 1e-8))
		m.addLWE("public-key ciphertext", m.pk.EncryptF64(r.Float64(), 1e-8))
	})
	def("re-encryption", 0, func() { m.addLWE("re-encrypted", proxyreenc.ReencryptTLWELv0(m.pick(), m.rk)) })
	def("re-encryption key generation", 0, func() {
		if r.Intn(3) == 0 {
			proxyreenc.NewProxyReencryptionKeySymmetricWithParams(sk.KeyLv0, m.sk2.KeyLv0, 1e-8, 1, 2)
			proxyreenc.NewProxyReencryptionKeyAsymmetricWithParams(sk.KeyLv0, m.pk, 1e-8, 1, 2)
			proxyreenc.NewPublicKeyLv0WithParams(sk.KeyLv0, 3, 1e-8)
		}
	})
	def("tables", 0, func() {
		g := lut.NewGenerator(2 + r.Intn(6))
		t := g.GenLookUpTable(func(x int) int { return x })
		u := m.luts[r.Intn(len(m.luts))].Copy()
		t.CopyFrom(m.luts[r.Intn(len(m.luts))])
		for _, h := range [][]T{t.Poly.A, t.Poly.B, u.Poly.A, u.Poly.B} {
			m.apart("a table or its copy", h)
			orc.Fill(r, h)
		}
		u.Clear()
		g.GenLookUpTableAssign(func(x int) int { return x + 1 }, u)
	})
	keys := 0
	def("cloud key generation", 0, func() {
		if keys < 2 && (n == 512 || m.p.Name == "80") {
			keys++
			cloudkey.NewCloudKey(m.sk2)
		}
		cloudkey.NewCloudKeyNoKSK()
	})
	return ops
}
