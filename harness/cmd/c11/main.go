// C11: linear operations on ciphertexts are exact.
package main

import (
	"fmt"

	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"

	"verif/orc"
	"verif/vk"
)

type T = params.Torus

func main() {
	vk.Main(vk.Spec{
		Prop:     "C11",
		Rule:     "one evaluation = one linear operation on ciphertexts with random or boundary coefficients, compared coefficient by coefficient (and by phase under a random key) with the exact combination modulo 2^32; the signature is (profile, operation, coefficients, multiplier, aliasing)",
		Shards:   func(string) int { return 8 },
		MinEvals: 5000,
		Run:      run,
	})
}

func run(c *vk.C) {
	mults := []T{0, 1, 2, 3, 4, 7, 8, 0xffffffff, 0xfffffffe, 0x80000000, 0x7fffffff, 0x10001, 1 << 16, 1 << 31, 12345}
	for pi, p := range orc.Profiles {
		for half := 0; half < 2; half++ {
			if !c.Mine(2*pi + half) {
				continue
			}
			p.Use()
			n := params.GetTLWELv0().N
			r := c.Rand("lin %s %d", p.Name, half)
			sk := make([]T, n)
			for i := 0; i < c.Pick(3000, 30000); i++ {
				for j := range sk {
					sk[j] = T(r.Intn(2))
				}
				a, b := tlwe.NewTLWELv0(), tlwe.NewTLWELv0()
				orc.Mixed(r, a.P)
				orc.Mixed(r, b.P)
				if i%3 == 1 {
					for j := range a.P {
						a.P[j] = orc.Edges[r.Intn(len(orc.Edges))]
						b.P[j] = orc.Edges[r.Intn(len(orc.Edges))]
					}
				}
				if i%7 == 0 {
					b = a // same object for both operands
				}
				ka, kb := append([]T(nil), a.P...), append([]T(nil), b.P...)
				m := mults[r.Intn(len(mults))]
				if i%2 == 0 {
					m = T(r.Uint32())
				}
				pa, pb := orc.Phase(ka, sk), orc.Phase(kb, sk)
				check := func(op string, got *tlwe.TLWELv0, f func(x, y T) T) {
					name := fmt.Sprintf("profile=%s op=%s multiplier=%#x same=%v", p.Name, op, uint32(m), a == b)
					if len(got.P) != n+1 {
						c.Fail(name, "result has %d coefficients", len(got.P))
					}
					for j := range ka {
						if w := f(ka[j], kb[j]); got.P[j] != w {
							c.Fail(name, "coefficient %d: %#x and %#x give %#x, want %#x", j, uint32(ka[j]), uint32(kb[j]), uint32(got.P[j]), uint32(w))
						}
					}
					if ph := orc.Phase(got.P, sk); ph != f(pa, pb) {
						c.Fail(name, "phase %#x, want %#x", uint32(ph), uint32(f(pa, pb)))
					}
					if got != a && got != b && (!orc.Eq(a.P, ka) || !orc.Eq(b.P, kb)) {
						c.Fail(name, "an operand changed")
					}
					c.Seen("%s|%s|%x|%x|%x", p.Name, op, uint32(m), uint32(ka[0]), uint32(kb[0]))
				}
				check("Add", a.Add(b), func(x, y T) T { return x + y })
				check("Sub", a.Sub(b), func(x, y T) T { return x - y })
				check("Neg", a.Neg(), func(x, _ T) T { return -x })
				check("AddMul", a.AddMul(b, m), func(x, y T) T { return x + y*m })
				check("SubMul", a.SubMul(b, m), func(x, y T) T { return x - y*m })
				// results are independent objects
				s1 := a.Add(b)
				k1 := append([]T(nil), s1.P...)
				s2 := a.Sub(b)
				orc.Fill(r, s2.P)
				if !orc.Eq(s1.P, k1) || !orc.Eq(a.P, ka) {
					c.Fail("independence", "writing to one result changed another result or an operand")
				}
				out := tlwe.NewTLWELv0()
				orc.Mixed(r, out.P)
				a.AddAssign(b, out)
				check("AddAssign(used output)", out, func(x, y T) T { return x + y })
				switch i % 3 {
				case 0:
					a.AddAssign(b, a)
					check("AddAssign(output is the receiver)", a, func(x, y T) T { return x + y })
				case 1:
					a.AddAssign(b, b)
					check("AddAssign(output is the argument)", b, func(x, y T) T { return x + y })
				default:
					a.AddAssign(a, a)
					kb, pb = ka, pa
					check("AddAssign(all the same)", a, func(x, y T) T { return x + y })
				}
				if i == 1 {
					c.Sample(fmt.Sprintf("profile=%s: Add/Sub/Neg/AddMul/SubMul/AddAssign on boundary coefficients, multiplier %#x", p.Name, uint32(m)))
				}
			}
		}
	}
}
