// C06: a generated lookup table encodes its function at every rotation.
package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"

	"verif/orc"
	"verif/vk"
)

type T = params.Torus

func main() {
	vk.Main(vk.Spec{
		Prop: "C06",
		Rule: "one evaluation = one table read at one rotation index of the doubled circle and compared with the encoding of the function at the nearest message (indices exactly between two messages are left out); the signature is (degree, modulus, scale, function, way of generation, index)",
		Assumptions: []string{
			"encodings may differ from the exact real value by one unit of 2^-32 (truncation)",
			"for moduli that do not divide the degree the table index next to a boundary between messages may belong to either side, in the same way for integer-valued and torus-valued functions",
		},
		Shards:   func(string) int { return 8 },
		MinEvals: 100000,
		Run:      run,
	})
}

// fn is a named function on messages.
type fn struct {
	name string
	f    func(int) int
}

func funcs(r *rand.Rand, m int) []fn {
	tab := make([]int, m)
	for i := range tab {
		tab[i] = r.Intn(m)
	}
	wild := make([]int, m)
	for i := range wild {
		wild[i] = r.Intn(9*m) - 4*m
	}
	k := r.Intn(m)
	pt := r.Intn(m)
	return []fn{
		{"identity", func(x int) int { return x }},
		{"random", func(x int) int { return tab[x] }},
		{"wild", func(x int) int { return wild[x] }},
		{"constant", func(int) int { return k }},
		{"delta", func(x int) int {
			if x == pt {
				return m - 1
			}
			return 0
		}},
		{"minus", func(x int) int { return -x }},
		{"last", func(x int) int {
			if x == m-1 {
				return 1
			}
			return 0
		}},
	}
}

func mod(x, m int) int {
	x %= m
	if x < 0 {
		x += m
	}
	return x
}

// nearest tells which message rotation index i of [0,2N) reads and with which
// sign; ok is false where two messages are equally near.
func nearest(i, n, m int, exact bool) (msg int, neg, ok bool) {
	// i/(2N) of the circle in units of 1/(2m): i*m/N messages
	num := i * m
	q, rem := num/n, num%n
	slack := 0
	if !exact {
		slack = m // one index
	}
	d := 2*rem - n
	if d == 0 || (d < 0 && -d <= 2*slack) || (d > 0 && d <= 2*slack) {
		return 0, false, false
	}
	if d > 0 {
		q++
	}
	q %= 2 * m
	return q % m, q >= m, true
}

func judge(c *vk.C, name string, l *lut.LookUpTable, n, m int, enc func(x int) T) {
	if len(l.Poly.A) != n || len(l.Poly.B) != n {
		c.Fail(name, "table has %d/%d coefficients, want %d", len(l.Poly.A), len(l.Poly.B), n)
	}
	for i, a := range l.Poly.A {
		if a != 0 {
			c.Fail(name, "mask coefficient %d is %#x, want 0", i, uint32(a))
		}
	}
	exact := n%m == 0 && (n/m)%2 == 0
	h := uint64(len(name))
	for _, b := range []byte(name) {
		h = h*1099511628211 + uint64(b)
	}
	seen := 0
	for i := 0; i < 2*n; i++ {
		x, neg, ok := nearest(i, n, m, exact)
		if !ok {
			continue
		}
		got := orc.At(l.Poly.B, i)
		want := enc(x)
		if neg {
			want = -want
		}
		if d := orc.Dist(got, want); d > 1 {
			c.Fail(name, "rotation %d of %d reads %#x, want %#x (the encoding at message %d, negated=%v)", i, 2*n, uint32(got), uint32(want), x, neg)
		}
		c.SeenHash(h*31 + uint64(i))
		seen++
	}
	c.Count("rotations_read", int64(seen))
	c.Count("tables", 1)
}

func run(c *vk.C) {
	idx := 0
	for _, p := range orc.Profiles {
		p.Use()
		n := params.GetTRGSWLv1().N
		ms := []int{2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 16, 17, 24, 31, 32, 48, 64, 100, 128}
		if c.Tier == "thorough" {
			ms = nil
			for m := 2; 8*m <= n; m++ {
				ms = append(ms, m)
			}
		} else {
			r := c.Rand("moduli %s", p.Name)
			for len(ms) < 27 {
				ms = append(ms, 9+r.Intn(n/8-8))
			}
		}
		for _, m := range ms {
			if 8*m > n {
				continue
			}
			idx++
			if !c.Mine(idx) {
				continue
			}
			r := c.Rand("lut %s %d", p.Name, m)
			for rep := 0; rep < c.Pick(1, 2); rep++ {
				one(c, p, r, n, m)
			}
		}
	}
}

func intEnc(f func(int) int, m int, scale float64) func(int) T {
	return func(x int) T { return orc.Enc(float64(mod(f(x), m)) * scale) }
}

func one(c *vk.C, p orc.Profile, r *rand.Rand, n, m int) {
	dirty := lut.NewLookUpTable()
	for fi, f := range funcs(r, m) {
		name := fmt.Sprintf("profile=%s m=%d f=%s", p.Name, m, f.name)
		gen := lut.NewGenerator(m)
		if gen.Encoder.MessageModulus != m || gen.PolyDegree != n || gen.LookUpTableSize != n {
			c.Fail(name, "generator has modulus %d, degree %d, table size %d", gen.Encoder.MessageModulus, gen.PolyDegree, gen.LookUpTableSize)
		}
		def := 1 / float64(2*m)
		l1 := gen.GenLookUpTable(f.f)
		judge(c, name+" GenLookUpTable", l1, n, m, intEnc(f.f, m, def))
		h1 := orc.HashT(l1.Poly.B)
		orc.Mixed(r, dirty.Poly.A)
		orc.Mixed(r, dirty.Poly.B)
		gen.GenLookUpTableAssign(f.f, dirty)
		judge(c, name+" GenLookUpTableAssign on a used table", dirty, n, m, intEnc(f.f, m, def))
		// torus-valued functions
		tv := make([]T, m)
		orc.Mixed(r, tv)
		if fi == 0 {
			for i := range tv {
				tv[i] = orc.Edges[r.Intn(len(orc.Edges))]
			}
		}
		ft := func(x int) T { return tv[x] }
		lf := gen.GenLookUpTableFull(ft)
		judge(c, name+" GenLookUpTableFull", lf, n, m, ft)
		orc.Mixed(r, dirty.Poly.A)
		orc.Mixed(r, dirty.Poly.B)
		gen.GenLookUpTableFullAssign(ft, dirty)
		judge(c, name+" GenLookUpTableFullAssign on a used table", dirty, n, m, ft)
		// the same values through both kinds of function give the same table
		same := gen.GenLookUpTableFull(func(x int) T { return gen.Encoder.Encode(f.f(x)) })
		if !orc.Eq(same.Poly.B, l1.Poly.B) {
			c.Fail(name, "the torus-valued function with the same values gives another table: %s", orc.Diff(same.Poly.B, l1.Poly.B))
		}
		c.Count("kinds_compared", 1)
		// other scales and moduli through a generator with its own settings
		scale := []float64{0.125, 1 / float64(m), 0.25, -0.125, 1 / float64(4*m), r.Float64() / float64(m)}[r.Intn(6)]
		m2 := []int{2, 4, m, 3, 8}[r.Intn(5)]
		fs := funcs(r, m2)[r.Intn(7)]
		encBefore := *gen.Encoder
		degBefore, sizeBefore := gen.PolyDegree, gen.LookUpTableSize
		lc := gen.GenLookUpTableCustom(fs.f, m2, scale)
		judge(c, fmt.Sprintf("%s GenLookUpTableCustom(%s,%d,%g)", name, fs.name, m2, scale), lc, n, m2, intEnc(fs.f, m2, scale))
		if *gen.Encoder != encBefore || gen.PolyDegree != degBefore || gen.LookUpTableSize != sizeBefore {
			c.Fail(name, "GenLookUpTableCustom changed the generator's settings from %+v to %+v", encBefore, *gen.Encoder)
		}
		l1b := gen.GenLookUpTable(f.f)
		if orc.HashT(l1b.Poly.B) != h1 {
			c.Fail(name, "the same generator gives another table for the same function after GenLookUpTableCustom")
		}
		gs := lut.NewGeneratorWithScale(m, scale)
		lsc := gs.GenLookUpTable(f.f)
		judge(c, fmt.Sprintf("%s NewGeneratorWithScale(%g)", name, scale), lsc, n, m, intEnc(f.f, m, scale))
		// copies
		cp := l1.Copy()
		if !orc.Eq(cp.Poly.B, l1.Poly.B) || !orc.Eq(cp.Poly.A, l1.Poly.A) {
			c.Fail(name, "Copy differs from the original")
		}
		other := lut.NewLookUpTable()
		orc.Mixed(r, other.Poly.A)
		orc.Mixed(r, other.Poly.B)
		other.CopyFrom(l1)
		if !orc.Eq(other.Poly.B, l1.Poly.B) || !orc.Eq(other.Poly.A, l1.Poly.A) {
			c.Fail(name, "CopyFrom differs from the original")
		}
		orc.Fill(r, cp.Poly.B)
		orc.Fill(r, cp.Poly.A)
		other.Clear()
		for i := range other.Poly.B {
			if other.Poly.B[i] != 0 || other.Poly.A[i] != 0 {
				c.Fail(name, "Clear left coefficient %d at %#x/%#x", i, uint32(other.Poly.A[i]), uint32(other.Poly.B[i]))
			}
		}
		if orc.HashT(l1.Poly.B) != h1 {
			c.Fail(name, "changing a copy, or clearing it, changed the original table")
		}
		cp2 := l1.Copy()
		hc := orc.HashT(cp2.Poly.B)
		orc.Fill(r, l1.Poly.B)
		l1.Clear()
		if orc.HashT(cp2.Poly.B) != hc {
			c.Fail(name, "changing the original changed its copy")
		}
		c.Count("copies_checked", 3)
		if fi == 1 && math.Mod(float64(m), 4) == 0 {
			c.Sample(fmt.Sprintf("%s: N=%d, all 2N rotations match; custom m=%d scale=%g", name, n, m2, scale))
		}
	}
}
