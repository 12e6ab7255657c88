// C02: every gate computes its truth table on every profile and for every
// origin and sharing of its inputs.
package main

import (
	"fmt"
	"math/rand"

	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"

	"verif/orc"
	"verif/vk"
)

type T = params.Torus

var shardProfiles = []string{"128", "128", "128", "110", "80", "uint1", "uint2", "uint3", "uint4", "uint5"}

func main() {
	vk.Main(vk.Spec{
		Prop: "C02",
		Rule: "one evaluation = one gate call whose result is decrypted and whose phase is measured; signature (profile, gate, input values, origin of each input, sharing); origins: fresh, constant, negation, copy, gate output, deep gate output, crafted noisy",
		Assumptions: []string{
			"input noise at most that of a bootstrap output, where the failure chance of a correct gate is below 1e-7",
		},
		Shards:   func(string) int { return len(shardProfiles) },
		MinEvals: 500,
		Run:      run,
	})
}

type in struct {
	ct     *gates.Ciphertext
	v      bool
	origin string
}

func run(c *vk.C) {
	p := orc.ByName(shardProfiles[c.Shard])
	k := orc.KeysFor(p)
	r := c.Rand("gates")
	alpha := params.GetTLWELv0().ALPHA
	n := params.GetTRGSWLv1().N
	var pool []in // gate outputs

	fresh := func(v bool) in {
		return in{tlwe.NewTLWELv0().EncryptBool(v, alpha, k.SK.KeyLv0), v, "fresh"}
	}
	var mk func(v bool, depth int) in
	mk = func(v bool, depth int) in {
		switch o := r.Intn(9); {
		case o == 0:
			return in{gates.Constant(v), v, "constant"}
		case o == 1 && depth > 0:
			x := mk(!v, depth-1)
			return in{gates.NOT(x.ct), v, "not-" + x.origin}
		case o == 2 && depth > 0:
			x := mk(v, depth-1)
			return in{gates.Copy(x.ct), v, "copy-" + x.origin}
		case o >= 3 && o <= 6 && len(pool) > 0:
			for t := 0; t < 20; t++ {
				x := pool[r.Intn(len(pool))]
				if x.v == v {
					return in{x.ct, v, "gate"}
				}
			}
			return fresh(v)
		case o == 7:
			return in{orc.GridCT(r, k.SK.KeyLv0, n, orc.BoolMu(v)), v, "grid"}
		}
		return fresh(v)
	}
	judge := func(name string, ct *gates.Ciphertext, want bool, sigma float64) {
		if len(ct.P) != len(k.SK.KeyLv0)+1 {
			c.Fail(name, "result has %d coefficients, want %d", len(ct.P), len(k.SK.KeyLv0)+1)
		}
		got := ct.DecryptBool(k.SK.KeyLv0)
		e := orc.Err(orc.Phase0(ct, k.SK.KeyLv0), orc.BoolMu(want))
		if got != want {
			c.Fail(name, "decrypts to %v, want %v (phase error %g)", got, want, e)
		}
		if e > sigma*9 || e < -sigma*9 {
			c.Fail(name, "decrypts to %v with phase error %g, bound %g", got, e, sigma*9)
		}
		c.Noise("output "+p.Name, e)
	}
	addPool := func(x in) {
		if len(pool) < 60 {
			pool = append(pool, x)
		} else {
			pool[r.Intn(len(pool))] = x
		}
	}
	call := func(g orc.Gate2, a, b in, how string) {
		name := fmt.Sprintf("%s(%v,%v) profile=%s inputs=%s,%s %s", g.Name, a.v, b.v, p.Name, a.origin, b.origin, how)
		c.Guard(name, func() {
			ct := g.F(a.ct, b.ct, k.CK)
			want := g.T(a.v, b.v)
			judge(name, ct, want, p.Sig)
			addPool(in{ct, want, "gate"})
			c.Seen("%s|%s|%v|%v|%s|%s|%s", p.Name, g.Name, a.v, b.v, a.origin, b.origin, how)
			c.Count("gate_"+g.Name, 1)
		})
	}

	// not, copy, constant: no bootstrap, checked in bulk
	for i := 0; i < 400; i++ {
		v := r.Intn(2) == 0
		cst := gates.Constant(v)
		name := fmt.Sprintf("Constant(%v) profile=%s", v, p.Name)
		for j := 0; j < len(cst.P)-1; j++ {
			if cst.P[j] != 0 {
				c.Fail(name, "mask coefficient %d is not zero", j)
			}
		}
		if len(cst.P) != len(k.SK.KeyLv0)+1 || cst.DecryptBool(k.SK.KeyLv0) != v || orc.Dist(orc.Phase0(cst, k.SK.KeyLv0), orc.BoolMu(v)) > 1 {
			c.Fail(name, "decrypts to %v, phase %#x", cst.DecryptBool(k.SK.KeyLv0), uint32(orc.Phase0(cst, k.SK.KeyLv0)))
		}
		x := mk(v, 2)
		nt := gates.NOT(x.ct)
		if nt.DecryptBool(k.SK.KeyLv0) == v || orc.Phase0(nt, k.SK.KeyLv0) != -orc.Phase0(x.ct, k.SK.KeyLv0) {
			c.Fail(fmt.Sprintf("NOT(%v) profile=%s input=%s", v, p.Name, x.origin), "decrypts to %v", nt.DecryptBool(k.SK.KeyLv0))
		}
		cp := gates.Copy(x.ct)
		if cp == x.ct || &cp.P[0] == &x.ct.P[0] || !orc.Eq(cp.P, x.ct.P) {
			c.Fail(fmt.Sprintf("Copy(%v) profile=%s", v, p.Name), "not an equal, separate ciphertext: %s", orc.Diff(cp.P, x.ct.P))
		}
		c.Seen("nc|%s|%v|%s", p.Name, v, x.origin)
	}

	bools := []bool{false, true}
	// full truth tables on fresh inputs
	order := r.Perm(len(orc.Gates2))
	for _, gi := range order {
		for _, a := range bools {
			for _, b := range bools {
				call(orc.Gates2[gi], fresh(a), fresh(b), "distinct")
			}
		}
	}
	// hostile mixes
	rounds := c.Pick(8, 120)
	for i := 0; i < rounds; i++ {
		for _, gi := range r.Perm(len(orc.Gates2)) {
			g := orc.Gates2[gi]
			switch (i + gi) % 5 {
			case 0: // one ciphertext for both inputs
				x := mk(r.Intn(2) == 0, 2)
				call(g, x, x, "same")
			case 1: // a ciphertext and its negation
				x := mk(r.Intn(2) == 0, 1)
				y := in{gates.NOT(x.ct), !x.v, "not"}
				if r.Intn(2) == 0 {
					x, y = y, x
				}
				call(g, x, y, "complement")
			case 2: // constants on one side
				v := r.Intn(2) == 0
				x, y := in{gates.Constant(v), v, "constant"}, mk(r.Intn(2) == 0, 2)
				if r.Intn(2) == 0 {
					x, y = y, x
				}
				call(g, x, y, "distinct")
			default:
				call(g, mk(r.Intn(2) == 0, 2), mk(r.Intn(2) == 0, 2), "distinct")
			}
		}
		muxOnce(c, p, k, r, i, mk, judge, addPool)
	}
	c.Sample(fmt.Sprintf("profile %s: %d gate outputs re-used as inputs", p.Name, len(pool)))
}

func muxOnce(c *vk.C, p orc.Profile, k *orc.Keys, r *rand.Rand, i int, mk func(bool, int) in, judge func(string, *gates.Ciphertext, bool, float64), addPool func(in)) {
	bits := i % 8
	if i >= 8 {
		bits = r.Intn(8)
	}
	a, b, d := mk(bits&1 != 0, 1), mk(bits&2 != 0, 1), mk(bits&4 != 0, 1)
	how := "distinct"
	switch i % 6 {
	case 3:
		b, how = a, "a=b"
	case 4:
		d, how = b, "b=c"
	case 5:
		d, how = a, "a=c"
	}
	name := fmt.Sprintf("MUX(%v,%v,%v) profile=%s inputs=%s,%s,%s %s", a.v, b.v, d.v, p.Name, a.origin, b.origin, d.origin, how)
	c.Guard(name, func() {
		ct := gates.MUX(a.ct, b.ct, d.ct, k.CK)
		want := d.v
		if a.v {
			want = b.v
		}
		judge(name, ct, want, p.Sig)
		addPool(in{ct, want, "gate"})
		c.Seen("%s|MUX|%v|%v|%v|%s|%s|%s|%s", p.Name, a.v, b.v, d.v, a.origin, b.origin, d.origin, how)
		c.Count("gate_MUX", 1)
	})
}
