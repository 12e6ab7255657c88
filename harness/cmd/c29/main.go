// C29: parameter profiles are consistent and as documented.
package main

import (
	"fmt"
	"math"
	"strings"
	"sync"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"

	"verif/orc"
	"verif/vk"
)

func main() {
	vk.Main(vk.Spec{
		Prop: "C29",
		Rule: "one evaluation = one consistency rule, documented value or re-reading of the parameters of one profile (or of an unknown selection) at one point of a history of selections and operations; the signature is (selection, rule, history position)",
		Assumptions: []string{
			"documented values are those of README.md, UINT_STATUS.md and the comments on the profiles",
			"a profile's predicted bootstrap noise (textbook variance formula) must leave at least four standard deviations (counting the rounding of the next mod-switch) to the margin of its message modulus",
		},
		Shards:   func(string) int { return 4 },
		MinEvals: 1000,
		Run:      run,
	})
}

type doc struct {
	n0, n1 int
	a0, a1 float64
	m      int
}

// what README.md, UINT_STATUS.md and the profile comments say
var docs = map[string]doc{
	"128":   {700, 1024, 2.0e-5, 2.0e-8, 2},
	"110":   {630, 1024, 3.05e-5, 2.98e-8, 2},
	"80":    {550, 1024, 5.0e-5, 3.73e-8, 2},
	"uint1": {700, 1024, 2.0e-5, 2.0e-8, 2},
	"uint2": {687, 512, 2.12e-5, 2.318e-12, 4},
	"uint3": {820, 1024, 2.517e-6, 2.22e-16, 8},
	"uint4": {820, 2048, 2.517e-6, 2.22e-16, 16},
	"uint5": {1071, 2048, 7.09e-8, 2.22e-17, 32},
	"uint6": {1071, 2048, 7.09e-8, 2.22e-17, 64},
	"uint7": {1160, 2048, 1.966e-8, 2.22e-17, 128},
	"uint8": {1160, 2048, 1.966e-8, 2.22e-17, 256},
}

type snap struct {
	A  params.TLWELv0Params
	B  params.TLWELv1Params
	C  params.TRLWELv1Params
	D  params.TRGSWLv1Params
	K  float64
	L  float64
	S  string
	BC int
	UB bool
}

func read() snap {
	return snap{params.GetTLWELv0(), params.GetTLWELv1(), params.GetTRLWELv1(), params.GetTRGSWLv1(),
		params.KSKAlpha(), params.BSKAlpha(), params.SecurityInfo(), params.GetBlockCount(), params.UseBlockBlindRotation()}
}

func close(a, b float64) bool { return math.Abs(a-b) <= 0.006*b }

func run(c *vk.C) {
	if params.CurrentSecurityLevel != params.Security128Bit {
		c.Fail("start", "the selection at start-up is %d, documented default is 128", params.CurrentSecurityLevel)
	}
	ref := map[string]snap{}
	for _, p := range orc.Profiles {
		p.Use()
		ref[p.Name] = read()
	}
	for _, p := range orc.Profiles {
		p.Use()
		rules(c, p, ref[p.Name])
	}
	// every history of selections reads the same
	r := c.Rand("history")
	for i := 0; i < c.Pick(20000, 400000); i++ {
		if r.Intn(4) == 0 {
			lv := params.SecurityLevel(r.Intn(400) - 100)
			if r.Intn(3) == 0 {
				lv = params.SecurityLevel(int(r.Uint64()))
			}
			known := false
			for _, p := range orc.Profiles {
				known = known || p.Level == lv
			}
			if !known {
				params.CurrentSecurityLevel = lv
				if read() != ref["128"] {
					c.Fail("unknown selection", "selection %d reads %+v, want the 128-bit parameters", lv, read())
				}
				c.Seen("unknown|%d", lv)
				continue
			}
		}
		p := orc.Profiles[r.Intn(len(orc.Profiles))]
		p.Use()
		s := read()
		if s != ref[p.Name] {
			c.Fail("history", "profile %s reads %+v, before %+v", p.Name, s, ref[p.Name])
		}
		// what was returned is a copy
		s.D.N = -1
		s.A.N = -1
		x := params.GetTRGSWLv1()
		x.N, x.L, x.BG = 3, 99, 1
		y := params.GetTLWELv0()
		y.N, y.ALPHA = 1, 1
		if read() != ref[p.Name] {
			c.Fail("history", "changing returned parameters of %s changed the profile", p.Name)
		}
		c.Seen("history|%s|%d", p.Name, i%997)
	}
	// concurrent readers
	for _, p := range orc.Profiles {
		p.Use()
		var wg sync.WaitGroup
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 200; i++ {
					if s := read(); s != ref[p.Name] {
						c.Fail("concurrent", "profile %s reads %+v, want %+v", p.Name, s, ref[p.Name])
					}
				}
			}()
		}
		wg.Wait()
		c.Seen("concurrent|%s", p.Name)
	}
	// no operation changes them
	for pi, p := range orc.Profiles {
		if !c.Mine(pi) {
			continue
		}
		ops(c, p, ref)
	}
}

func rules(c *vk.C, p orc.Profile, s snap) {
	d := docs[p.Name]
	name := "profile=" + p.Name
	rule := func(what string, ok bool) {
		if !ok {
			c.Fail(name, "%s: %+v", what, s)
		}
		c.Seen("%s|%s", p.Name, what)
	}
	g := s.D
	n1 := g.N
	rule("ring, level-1 and gadget dimensions agree", s.B.N == n1 && s.C.N == n1)
	rule("ring dimension is a power of two of the stated length", n1 > 0 && n1&(n1-1) == 0 && 1<<uint(g.NBIT) == n1)
	rule("base matches its bit length", g.BG == 1<<g.BGBIT)
	rule("at least one gadget level and at most four", g.L >= 1 && g.L <= 4)
	rule("gadget decomposition fits 32 bits", g.L*int(g.BGBIT) <= 32)
	rule("key-switching decomposition fits with its rounding bit", g.IKS_T >= 1 && g.BASEBIT >= 1 && g.IKS_T*g.BASEBIT <= 31)
	rule("noise levels agree", s.B.ALPHA == s.C.ALPHA && s.B.ALPHA == g.ALPHA && s.K == s.A.ALPHA && s.L == s.B.ALPHA)
	rule("noise levels are positive and small", s.A.ALPHA > 0 && s.B.ALPHA > 0 && s.A.ALPHA < 1e-3 && s.B.ALPHA < s.A.ALPHA)
	rule("blocks cover the dimension", g.BlockSize >= 1 && s.BC*g.BlockSize >= s.A.N && (s.BC-1)*g.BlockSize < s.A.N)
	rule("block rotation is used exactly when blocks are larger than one", s.UB == (g.BlockSize > 1))
	rule("documented dimensions", s.A.N == d.n0 && n1 == d.n1)
	rule("documented noise", close(s.A.ALPHA, d.a0) && close(s.B.ALPHA, d.a1))
	rule("documented modulus", p.M == d.m)
	if strings.HasPrefix(p.Name, "uint") {
		rule("description states modulus and degree", strings.Contains(s.S, fmt.Sprintf("messageModulus=%d,", d.m)) && strings.Contains(s.S, fmt.Sprintf("N=%d)", d.n1)))
	} else {
		rule("description states the security level", strings.HasPrefix(s.S, p.Name+"-bit"))
	}
	if p.PBS {
		rule("predicted noise leaves four standard deviations", predicted(s)*4 < 1/(4*float64(d.m)))
		c.Note("%s predicted bootstrap noise %.3g, margin %.3g", p.Name, predicted(s), 1/(4*float64(d.m)))
	}
}

// predicted is the textbook standard deviation of a bootstrap's output plus
// the mod-switch of the next one.
func predicted(s snap) float64 {
	n, N, l := float64(s.A.N), float64(s.D.N), float64(s.D.L)
	bg := float64(s.D.BG)
	a1 := s.B.ALPHA
	if a1 < math.Exp2(-35) {
		a1 = 0 // below the resolution of the torus
	}
	eps := math.Pow(bg, -l) / 2
	br := n*(2*l*N*bg*bg/12*a1*a1) + n*(1+N/2)*eps*eps/3
	base, t := math.Exp2(float64(s.D.BASEBIT)), float64(s.D.IKS_T)
	ks := N*t*s.A.ALPHA*s.A.ALPHA + N/2*math.Pow(base, -2*t)/12
	ms := (n/2 + 1) / 12 / (4 * N * N)
	return math.Sqrt(br + ks + ms)
}

func ops(c *vk.C, p orc.Profile, ref map[string]snap) {
	p.Use()
	step := func(what string) {
		if params.CurrentSecurityLevel != p.Level {
			c.Fail("profile="+p.Name, "%s changed the selection to %d", what, params.CurrentSecurityLevel)
		}
		if read() != ref[p.Name] {
			c.Fail("profile="+p.Name, "%s changed the parameters to %+v", what, read())
		}
		for _, q := range orc.Profiles {
			q.Use()
			if read() != ref[q.Name] {
				c.Fail("profile="+q.Name, "%s under profile %s changed its parameters", what, p.Name)
			}
		}
		p.Use()
		c.Seen("op|%s|%s", p.Name, what)
		c.Count("operations_watched", 1)
	}
	sk := key.NewSecretKey()
	step("NewSecretKey")
	ck := cloudkey.NewCloudKey(sk)
	step("NewCloudKey")
	a := tlwe.NewTLWELv0().EncryptBool(true, params.GetTLWELv0().ALPHA, sk.KeyLv0)
	b := tlwe.NewTLWELv0().EncryptLWEMessage(1, 2, params.GetTLWELv0().ALPHA, sk.KeyLv0)
	step("encryption")
	gates.NAND(a, a, ck)
	gates.MUX(a, a, a, ck)
	step("gates")
	gates.BatchAND([][2]*gates.Ciphertext{{a, a}, {a, a}, {a, a}}, ck)
	step("batch gates")
	ev := evaluator.NewEvaluator(params.GetTRGSWLv1().N)
	ev.ShallowCopy()
	ev.BootstrapFunc(b, func(x int) int { return 1 - x }, 2, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
	ev.ResetBuffers()
	ev.Buffers.MemoryUsage()
	step("programmable bootstrap")
	lut.NewGenerator(p.M).GenLookUpTableCustom(func(x int) int { return x }, 2, 0.125)
	step("lookup tables")
	pk := proxyreenc.NewPublicKeyLv0WithParams(sk.KeyLv0, 20, 1e-9)
	rk := proxyreenc.NewProxyReencryptionKeyAsymmetricWithParams(sk.KeyLv0, pk, 1e-9, 2, 3)
	proxyreenc.ReencryptTLWELv0(a, rk)
	proxyreenc.NewProxyReencryptionKeySymmetric(sk.KeyLv0, sk.KeyLv0)
	step("re-encryption")
	a.DecryptBool(sk.KeyLv0)
	b.DecryptLWEMessage(2, sk.KeyLv0)
	step("decryption")
}
