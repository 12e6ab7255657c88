// C01: fresh encryption followed by decryption gives the message back, for every
// ciphertext kind, profile, key and message, and the noise is what was asked for.
package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trlwe"

	"verif/orc"
	"verif/vk"
)

type T = params.Torus

func hostileKeys(r *rand.Rand, n int) map[string][]T {
	z, o, one, last, alt := make([]T, n), make([]T, n), make([]T, n), make([]T, n), make([]T, n)
	for i := range o {
		o[i] = 1
		alt[i] = T(i & 1)
	}
	one[r.Intn(n)] = 1
	last[n-1] = 1
	return map[string][]T{"zero": z, "ones": o, "single": one, "last": last, "alternating": alt}
}

func tol(alpha float64) int64 { return int64(9*alpha*math.Exp2(32)) + 2 }

func main() {
	vk.Main(vk.Spec{
		Prop: "C01",
		Rule: "one evaluation = one encryption (or crafted ciphertext of known phase) decrypted; the signature is (profile, ciphertext kind, key shape, message, modulus, noise level, receiver state); all are non-trivial: random mask, hostile or random key, random or boundary message",
		Assumptions: []string{
			"noise is bounded by 9 standard deviations (chance of a single excess below 1e-18)",
			"messages of modulus m are only decrypted where the margin 1/(4m) exceeds 9 standard deviations",
		},
		Shards:   func(string) int { return 8 },
		MinEvals: 20000,
		Run:      run,
	})
}

func run(c *vk.C) {
	for pi, p := range orc.Profiles {
		if !c.Mine(pi) {
			continue
		}
		p.Use()
		n0, n1 := params.GetTLWELv0().N, params.GetTLWELv1().N
		r := c.Rand("keys %s", p.Name)
		keys0, keys1 := hostileKeys(r, n0), hostileKeys(r, n1)
		for i := 0; i < c.Pick(3, 12); i++ {
			sk := key.NewSecretKey()
			keys0[fmt.Sprintf("random%d", i)] = sk.KeyLv0
			keys1[fmt.Sprintf("random%d", i)] = sk.KeyLv1
		}
		for name, k := range keys0 {
			lv0(c, p, name, k)
		}
		for name, k := range keys1 {
			lv1(c, p, name, k)
			ring(c, p, name, k)
		}
	}
}

func lv0(c *vk.C, p orc.Profile, kn string, sk []T) {
	a0 := params.GetTLWELv0().ALPHA
	r := c.Rand("lv0 %s %s", p.Name, kn)
	before := orc.HashT(sk)
	dirty := tlwe.NewTLWELv0()
	orc.Fill(r, dirty.P)
	n := c.Pick(800, 8000)
	for i := 0; i < n; i++ {
		alpha := []float64{a0, 0, a0 / 8, a0 * 3}[i%4]
		reuse := i%3 == 0
		recv := func() *tlwe.TLWELv0 {
			if reuse {
				if r.Intn(3) == 0 {
					orc.Mixed(r, dirty.P)
				}
				return dirty
			}
			return tlwe.NewTLWELv0()
		}
		name := fmt.Sprintf("level-0 profile=%s key=%s alpha=%g reuse=%v", p.Name, kn, alpha, reuse)
		// boolean
		for _, b := range []bool{true, false} {
			t := recv()
			ct := t.EncryptBool(b, alpha, sk)
			if ct != t {
				c.Fail(name, "EncryptBool did not return its receiver")
			}
			if len(ct.P) != len(sk)+1 {
				c.Fail(name, "ciphertext has %d coefficients, want %d", len(ct.P), len(sk)+1)
			}
			if d := orc.Dist(orc.Phase0(ct, sk), orc.BoolMu(b)); d > tol(alpha) {
				c.Fail(name, "EncryptBool(%v): phase is %d LSB from the encoding, bound %d", b, d, tol(alpha))
			}
			if ct.DecryptBool(sk) != b {
				c.Fail(name, "DecryptBool(EncryptBool(%v)) = %v", b, !b)
			}
			if ct.B() != ct.P[len(sk)] {
				c.Fail(name, "B() is not the last coefficient")
			}
			c.Seen("b0|%s|%s|%v|%g|%v", p.Name, kn, b, alpha, reuse)
		}
		// real values
		x := (r.Float64() - 0.5) * []float64{1, 2, 8}[r.Intn(3)]
		if i%5 == 0 {
			x = []float64{0, 0.5, -0.5, 0.25, -0.25, 0.999999, -0.999999, 1, -1, 1.0 / 3}[(i/5)%10]
		}
		if i%11 == 0 { // far from the first turn, and next to whole ones
			x = []float64{1 << 20, -1 << 20, 1 << 31, -1 << 31, 1 << 32, -1 << 33, 1 << 40, -1 << 40}[r.Intn(8)] +
				float64(r.Intn(4096)-2048)/4096
		}
		ct := recv().EncryptF64(x, alpha, sk)
		if d := orc.Dist(orc.Phase0(ct, sk), orc.Enc(x)); d > tol(alpha) {
			c.Fail(name, "EncryptF64(%v): phase is %d LSB away, bound %d", x, d, tol(alpha))
		}
		c.Seen("f0|%s|%s|%x", p.Name, kn, math.Float64bits(x))
		fe := orc.Dist(orc.Phase0(ct, sk), orc.Enc(x))
		// integer messages
		var m int
		switch i % 7 {
		case 0:
			m = p.M
		case 1:
			m = 2
		case 2:
			m = 2 + r.Intn(31)
		case 3:
			m = 1 << (1 + r.Intn(9))
		case 4:
			m = 2 + r.Intn(1000)
		case 5:
			m = 2 + r.Intn(10000)
		default:
			m = 1 << 15
			m += r.Intn(1 << (4 + r.Intn(13)))
		}
		if 1/(4*float64(m)) > 10*alpha+1e-9 {
			msg := r.Intn(m)
			switch (i / 7) % 7 {
			case 1:
				msg = m - 1
			case 2:
				msg = 0
			case 3:
				msg = -1 - r.Intn(3*m)
			case 4:
				msg = m + r.Intn(5*m)
			case 5:
				msg = -m
			case 6:
				msg = []int{math.MaxInt, math.MinInt, 1 << 31, -1 << 31, 1<<32 + 1, 1<<53 + 1, -1<<53 - 1}[r.Intn(7)]
			}
			want := ((msg % m) + m) % m
			ct := recv().EncryptLWEMessage(msg, m, alpha, sk)
			if d := orc.Dist(orc.Phase0(ct, sk), orc.MsgMu(msg, m)); d > tol(alpha) {
				c.Fail(name, "EncryptLWEMessage(%d mod %d): phase is %d LSB from the encoding, bound %d", msg, m, d, tol(alpha))
			}
			if got := ct.DecryptLWEMessage(m, sk); got != want {
				c.Fail(name, "DecryptLWEMessage(EncryptLWEMessage(%d), m=%d) = %d, want %d", msg, m, got, want)
			}
			c.Seen("m0|%s|%s|%d|%d|%g", p.Name, kn, m, msg, alpha)
		}
		// decryption of crafted ciphertexts with noise up to the margin
		b := r.Intn(2) == 0
		e := T(r.Int63n(1<<30) - (1 << 29)) // within (-1/8, 1/8)
		if e == 1<<29 || e == 0xe0000000 {
			e = 0
		}
		if i%4 == 0 {
			e = []T{(1 << 29) - 2, 0xe0000002}[r.Intn(2)]
		}
		cc := orc.CraftCT(r, sk, orc.BoolMu(b)+e)
		if got := cc.DecryptBool(sk); got != b {
			c.Fail(name, "a sample of %v with phase error %g decrypts to %v", b, orc.Err(e, 0), got)
		}
		c.Seen("db|%s|%s|%v|%d", p.Name, kn, b, e)
		mm := 2 + r.Intn(200)
		if i%8 > 4 { // large moduli, where every rounding step shows
			mm = 2 + r.Intn(1<<(8+r.Intn(20)))
		}
		msg := r.Intn(mm)
		if i%16 > 12 {
			msg = mm - 1
		}
		half := int64(math.Exp2(31)/float64(mm)/2) - 3
		em := T(r.Int63n(2*half+1) - half)
		if i%4 == 1 {
			em = T(half)
		}
		if i%4 == 2 {
			em = T(-half)
		}
		cm := orc.CraftCT(r, sk, orc.MsgMu(msg, mm)+em)
		if got := cm.DecryptLWEMessage(mm, sk); got != msg {
			c.Fail(name, "a sample of %d (mod %d) with phase error %g decrypts to %d", msg, mm, orc.Err(em, 0), got)
		}
		c.Seen("dm|%s|%s|%d|%d|%d", p.Name, kn, mm, msg, em)
		// without noise every modulus can be told apart
		away := msg + (r.Intn(7)-3)*mm
		if got := recv().EncryptLWEMessage(away, mm, 0, sk).DecryptLWEMessage(mm, sk); got != msg {
			c.Fail(name, "DecryptLWEMessage(EncryptLWEMessage(%d), m=%d) without noise = %d, want %d", away, mm, got, msg)
		}
		c.Seen("m00|%s|%s|%d|%d", p.Name, kn, mm, away)
		if i < 1 {
			c.Sample(fmt.Sprintf("%s: EncryptF64(%g) phase error %d LSB; crafted %d mod %d with error %.5f decrypted correctly", name, x, fe, msg, mm, orc.Err(em, 0)))
		}
	}
	if orc.HashT(sk) != before {
		c.Fail("level-0 key", "encryption or decryption changed the secret key")
	}
	c.Count("level0_rounds", int64(n))
}

func lv1(c *vk.C, p orc.Profile, kn string, sk []T) {
	a1 := params.GetTLWELv1().ALPHA
	r := c.Rand("lv1 %s %s", p.Name, kn)
	before := orc.HashT(sk)
	dirty := tlwe.NewTLWELv1()
	orc.Fill(r, dirty.P)
	n := c.Pick(400, 4000)
	for i := 0; i < n; i++ {
		alpha := []float64{a1, 0, 1e-5, 1e-7}[i%4]
		t := tlwe.NewTLWELv1()
		if i%3 == 0 {
			t = dirty
		}
		name := fmt.Sprintf("level-1 profile=%s key=%s alpha=%g reuse=%v", p.Name, kn, alpha, i%3 == 0)
		b := r.Intn(2) == 0
		ct := t.EncryptBool(b, alpha, sk)
		if ct != t || len(ct.P) != len(sk)+1 {
			c.Fail(name, "EncryptBool returned another object or %d coefficients", len(ct.P))
		}
		if d := orc.Dist(orc.Phase(ct.P, sk), orc.BoolMu(b)); d > tol(alpha) {
			c.Fail(name, "EncryptBool(%v): phase is %d LSB from the encoding, bound %d", b, d, tol(alpha))
		}
		if ct.DecryptBool(sk) != b {
			c.Fail(name, "DecryptBool(EncryptBool(%v)) = %v", b, !b)
		}
		x := (r.Float64() - 0.5) * 4
		ct = t.EncryptF64(x, alpha, sk)
		if d := orc.Dist(orc.Phase(ct.P, sk), orc.Enc(x)); d > tol(alpha) {
			c.Fail(name, "EncryptF64(%v): phase is %d LSB away, bound %d", x, d, tol(alpha))
		}
		e := T(r.Int63n(1<<30-4) - (1<<29 - 2))
		cc := tlwe.NewTLWELv1()
		var acc T
		if orc.Mixed(r, cc.P); i%12 == 0 {
			orc.Zero(cc.P)
		}
		for j := range sk {
			acc += cc.P[j] * sk[j]
		}
		cc.SetB(acc + orc.BoolMu(b) + e)
		if got := cc.DecryptBool(sk); got != b {
			c.Fail(name, "a sample of %v with phase error %g decrypts to %v", b, orc.Err(e, 0), got)
		}
		c.Seen("1|%s|%s|%v|%x|%d", p.Name, kn, b, math.Float64bits(x), e)
	}
	if orc.HashT(sk) != before {
		c.Fail("level-1 key", "encryption or decryption changed the secret key")
	}
	c.Count("level1_rounds", int64(n))
}

func ring(c *vk.C, p orc.Profile, kn string, sk []T) {
	a1 := params.GetTRLWELv1().ALPHA
	n := params.GetTRLWELv1().N
	r := c.Rand("ring %s %s", p.Name, kn)
	pe := poly.NewEvaluator(n)
	before := orc.HashT(sk)
	dirty := trlwe.NewTRLWELv1()
	orc.Fill(r, dirty.A)
	orc.Fill(r, dirty.B)
	rounds := c.Pick(24, 240)
	for i := 0; i < rounds; i++ {
		alpha := []float64{a1, 0, 1e-6}[i%3]
		t := trlwe.NewTRLWELv1()
		if i%2 == 1 {
			t = dirty
		}
		name := fmt.Sprintf("ring profile=%s key=%s alpha=%g reuse=%v", p.Name, kn, alpha, i%2 == 1)
		bits := make([]bool, n)
		for j := range bits {
			switch i % 6 {
			case 4:
				bits[j] = true
			case 5:
				bits[j] = false
			case 0:
				bits[j] = r.Intn(2) == 0
			case 1:
				bits[j] = j%2 == 0
			case 2:
				bits[j] = j == n-1
			default:
				bits[j] = j != 0
			}
		}
		keep := append([]bool(nil), bits...)
		ct := t.EncryptBool(bits, alpha, sk, pe)
		if ct != t || len(ct.A) != n || len(ct.B) != n {
			c.Fail(name, "EncryptBool returned another object or wrong lengths %d/%d", len(ct.A), len(ct.B))
		}
		ph := orc.PhaseRing(ct, sk)
		dec := ct.DecryptBool(sk, pe)
		if len(dec) != n {
			c.Fail(name, "DecryptBool returned %d values", len(dec))
		}
		for j := range bits {
			if bits[j] != keep[j] {
				c.Fail(name, "EncryptBool changed the message slice at %d", j)
			}
			if d := orc.Dist(ph[j], orc.BoolMu(keep[j])); d > tol(alpha) {
				c.Fail(name, "EncryptBool: coefficient %d has phase %d LSB from the encoding, bound %d", j, d, tol(alpha))
			}
			if dec[j] != keep[j] {
				c.Fail(name, "DecryptBool(EncryptBool) at coefficient %d = %v", j, dec[j])
			}
		}
		xs := make([]float64, n)
		for j := range xs {
			xs[j] = (r.Float64() - 0.5) * 2
		}
		switch i % 8 { // messages with a structure
		case 1:
			xs = make([]float64, n)
		case 2:
			for j := range xs {
				xs[j] = 0.375
			}
		case 3, 4:
			k := []int{0, n - 1, r.Intn(n)}[r.Intn(3)]
			for j := range xs {
				if j != k {
					xs[j] = 0
				}
			}
		case 5:
			for j := range xs {
				xs[j] = float64(r.Intn(65)-32) / 4
			}
		}
		ct = t.EncryptF64(xs, alpha, sk, pe)
		ph = orc.PhaseRing(ct, sk)
		for j := range xs {
			if d := orc.Dist(ph[j], orc.Enc(xs[j])); d > tol(alpha) {
				c.Fail(name, "EncryptF64: coefficient %d has phase %d LSB away, bound %d", j, d, tol(alpha))
			}
		}
		// crafted ring sample with large noise
		cc := trlwe.NewTRLWELv1()
		orc.Fill(r, cc.A)
		if i%3 == 0 {
			for j := range cc.A {
				cc.A[j] = orc.Edges[r.Intn(len(orc.Edges))]
			}
		}
		if i%3 == 1 {
			if orc.Mixed(r, cc.A); i%4 == 0 {
				orc.Zero(cc.A)
			}
		}
		as := orc.Mul(sk, cc.A)
		for j := range cc.B {
			cc.B[j] = as[j] + orc.BoolMu(keep[j]) + T(r.Int63n(1<<30-8)-(1<<29-4))
		}
		dec = cc.DecryptBool(sk, pe)
		for j := range dec {
			if dec[j] != keep[j] {
				c.Fail(name, "crafted ring sample: coefficient %d decrypts to %v, its phase is %g", j, dec[j], orc.Err(cc.B[j]-as[j], 0))
			}
			c.SeenHash(uint64(cc.A[j])<<32 ^ uint64(cc.B[j]))
		}
	}
	if orc.HashT(sk) != before {
		c.Fail("ring key", "encryption or decryption changed the secret key")
	}
	c.Count("ring_rounds", int64(rounds))
}
