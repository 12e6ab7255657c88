// C31: buffers handed out are right-sized, clear and separate, and misuse is refused.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"unsafe"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"

	"verif/orc"
	"verif/vk"
)

type T = params.Torus

const maxDegree = 1 << 14

func main() {
	vk.Main(vk.Spec{
		Prop: "C31",
		Rule: "one evaluation = one object obtained (length, content and separation from all other live ones judged), one step of a random sequence on pooled buffers compared with a model of them, or one invalid argument that must be refused; signature (object, degree or profile, step)",
		Assumptions: []string{
			"a buffer of a pool of four stays the caller's until the pool has been asked four more times or was reset",
			"a transform out of a named Fourier buffer may destroy that buffer's content",
		},
		Shards:   func(string) int { return 8 },
		MinEvals: 20000,
		Run:      run,
	})
}

type mon struct {
	c *vk.C
	r *rand.Rand
}

func run(c *vk.C) {
	m := &mon{c, c.Rand("c31 %d", c.Shard)}
	switch c.Shard {
	case 0:
		m.degrees()
		m.valid()
	case 1:
		m.values()
		m.decomposers()
	case 2, 3, 4:
		for n := 16 << (c.Shard - 2); n <= 4096; n <<= 3 {
			m.pools(n)
		}
	case 5, 6:
		for i, p := range orc.Profiles {
			if i%2 == c.Shard-5 {
				p.Use()
				m.objects(p)
				if !c.Quick() || p.Name == "80" || p.Name == "uint2" || p.Name == "uint5" {
					m.emptyKey(p)
				}
			}
		}
	case 7:
		m.evaluators()
	}
}

// space watches that separate objects do not share memory.
type space struct {
	live [][2]uintptr
	what []string
	keep []any
}

func (s *space) add(what string, v any, lo, size uintptr) string {
	for i, x := range s.live {
		if lo < x[1] && x[0] < lo+size {
			return s.what[i]
		}
	}
	s.live = append(s.live, [2]uintptr{lo, lo + size})
	s.what = append(s.what, what)
	s.keep = append(s.keep, v)
	return ""
}

func span[X any](v []X) (uintptr, uintptr) {
	if len(v) == 0 {
		return 0, 0
	}
	var z X
	return uintptr(unsafe.Pointer(&v[0])), uintptr(len(v)) * unsafe.Sizeof(z)
}

type num interface{ ~uint32 | ~float64 }

// fresh judges a newly made buffer: length, all zero, separate; and then dirties it.
func fresh[X num](m *mon, s *space, what string, v []X, want int) {
	c := m.c
	if len(v) != want {
		c.Fail(what, "has %d coefficients, want %d", len(v), want)
	}
	for i, x := range v {
		if x != 0 || math.Signbit(float64(x)) {
			c.Fail(what, "coefficient %d of a new object is %v", i, x)
		}
	}
	lo, size := span(v)
	if o := s.add(what, v, lo, size); o != "" {
		c.Fail(what, "shares memory with %s", o)
	}
	for i := range v {
		v[i] = X(m.r.Intn(1<<30) + 1)
	}
	c.Seen("fresh|%s|%d", what, want)
}

func pow2(n int) bool { return n > 0 && n&(n-1) == 0 }

// degrees: every constructor refuses exactly the unsupported degrees.
func (m *mon) degrees() {
	c := m.c
	ctors := []struct {
		name string
		f    func(n int) int
	}{
		{"NewPoly", func(n int) int { return len(poly.NewPoly(n).Coeffs) }},
		{"NewFourierPoly", func(n int) int { return len(poly.NewFourierPoly(n).Coeffs) }},
		{"NewPolyAligned", func(n int) int { return len(poly.NewPolyAligned(n).Coeffs) }},
		{"NewFourierPolyAligned", func(n int) int { return len(poly.NewFourierPolyAligned(n).Coeffs) }},
		{"NewEvaluator", func(n int) int { return poly.NewEvaluator(n).Degree() }},
		{"NewDecomposer", func(n int) int { return len(poly.NewDecomposer(n, 1).GetPolyDecomposedBuffer(1)[0].Coeffs) }},
	}
	var ns []int
	top := c.Pick(5000, 70000)
	for n := -300; n <= top; n++ {
		ns = append(ns, n)
	}
	for b := 13; b < 63; b++ {
		for _, d := range []int{-1, 1, 3 << (b - 5)} {
			ns = append(ns, 1<<b+d, -(1<<b + d), -1<<b)
		}
	}
	ns = append(ns, math.MinInt, math.MinInt+16, math.MaxInt, 1<<14)
	for _, n := range ns {
		ok := pow2(n) && n >= poly.MinDegree
		if ok && n > maxDegree {
			continue // supported, but its memory is not worth it
		}
		for _, k := range ctors {
			got := 0
			refused := vk.Panics(func() { got = k.f(n) })
			what := fmt.Sprintf("%s(%d)", k.name, n)
			switch {
			case refused && ok:
				c.Fail(what, "refuses a supported degree")
			case !refused && !ok:
				c.Fail(what, "accepts a degree that is not a power of two of at least %d", poly.MinDegree)
			case ok && got != n:
				c.Fail(what, "gives degree %d", got)
			}
			if ok || n < 3*poly.MinDegree || n%997 == 0 || n > top {
				c.Seen("degree|%s", what)
			}
			c.Count("degrees_tried", 1)
		}
	}
	c.Count("evaluations_of_degrees", int64(len(ns)))
}

// valid: every supported degree, many objects alive at once.
func (m *mon) valid() {
	c, r := m.c, m.r
	for round := 0; round < c.Pick(2, 12); round++ {
		for n := poly.MinDegree; n <= maxDegree; n <<= 1 {
			s := &space{}
			e := poly.NewEvaluator(n)
			e2 := e.ShallowCopy()
			if e.Degree() != n || e2.Degree() != n {
				c.Fail(fmt.Sprintf("evaluator of degree %d", n), "says degree %d, its copy %d", e.Degree(), e2.Degree())
			}
			for i := 0; i < 40; i++ {
				switch r.Intn(8) {
				case 0:
					p := poly.NewPoly(n)
					if p.Degree() != n {
						c.Fail("NewPoly", "degree %d says %d", n, p.Degree())
					}
					fresh(m, s, "NewPoly", p.Coeffs, n)
				case 1:
					p := poly.NewFourierPoly(n)
					if p.Degree() != n {
						c.Fail("NewFourierPoly", "degree %d says %d", n, p.Degree())
					}
					fresh(m, s, "NewFourierPoly", p.Coeffs, n)
				case 2:
					p := poly.NewPolyAligned(n)
					m.aligned("NewPolyAligned", uintptr(unsafe.Pointer(&p.Coeffs[0])), n)
					fresh(m, s, "NewPolyAligned", p.Coeffs, n)
				case 3:
					p := poly.NewFourierPolyAligned(n)
					m.aligned("NewFourierPolyAligned", uintptr(unsafe.Pointer(&p.Coeffs[0])), n)
					fresh(m, s, "NewFourierPolyAligned", p.Coeffs, n)
				case 4:
					fresh(m, s, "Evaluator.NewPoly", []*poly.Evaluator{e, e2}[i%2].NewPoly().Coeffs, n)
				case 5:
					fresh(m, s, "Evaluator.NewFourierPoly", []*poly.Evaluator{e, e2}[i%2].NewFourierPoly().Coeffs, n)
				case 6:
					d := poly.NewDecomposer(n, 3)
					for l, x := range d.GetPolyDecomposedBuffer(3) {
						fresh(m, s, fmt.Sprintf("decomposer level %d", l), x.Coeffs, n)
					}
					for l, x := range d.GetPolyFourierDecomposedBuffer(3) {
						fresh(m, s, fmt.Sprintf("Fourier decomposer level %d", l), x.Coeffs, n)
					}
				case 7:
					for l := 0; l < 8; l++ {
						if n > 4096 {
							break
						}
						k := e.ShallowCopy()
						fresh(m, s, "decomposition buffer", k.GetDecompBuffer(l).Coeffs, n)
						fresh(m, s, "Fourier decomposition buffer", k.GetDecompFFTBuffer(l).Coeffs, n)
					}
				}
			}
		}
	}
}

func (m *mon) aligned(what string, a uintptr, n int) {
	if a%64 != 0 {
		m.c.Fail(what, "degree %d: the first coefficient lies %d bytes after a cache line boundary", n, a%64)
	}
	m.c.Count("alignments_checked", 1)
}

// values: copies, clearing and copying over.
func (m *mon) values() {
	c, r := m.c, m.r
	for round := 0; round < c.Pick(60, 1500); round++ {
		for n := poly.MinDegree; n <= 4096; n <<= 1 {
			name := fmt.Sprintf("degree %d", n)
			p := poly.NewPoly(n)
			orc.Fill(r, p.Coeffs)
			was := append([]T(nil), p.Coeffs...)
			q := p.Copy()
			if q.Degree() != n || !orc.Eq(q.Coeffs, was) || !orc.Eq(p.Coeffs, was) {
				c.Fail("Poly.Copy "+name, "%s", orc.Diff(q.Coeffs, was))
			}
			i := r.Intn(n)
			q.Coeffs[i] ^= 1
			if !orc.Eq(p.Coeffs, was) {
				c.Fail("Poly.Copy "+name, "writing to the copy changes the original")
			}
			q.Clear()
			for j, x := range q.Coeffs {
				if x != 0 {
					c.Fail("Poly.Clear "+name, "coefficient %d is left at %d", j, x)
				}
			}
			if !orc.Eq(p.Coeffs, was) {
				c.Fail("Poly.Clear "+name, "clearing the copy changes the original")
			}
			f, g := poly.NewFourierPoly(n), poly.NewFourierPoly(n)
			for j := range f.Coeffs {
				f.Coeffs[j] = r.NormFloat64() * math.Exp2(float64(r.Intn(60)))
				g.Coeffs[j] = r.NormFloat64()
			}
			switch round % 5 {
			case 1:
				f.Coeffs[r.Intn(n)] = math.Inf(1)
			case 2:
				f.Coeffs[r.Intn(n)] = math.NaN()
			}
			fh := orc.HashF(f.Coeffs)
			h := f.Copy()
			g.CopyFrom(f)
			if orc.HashF(h.Coeffs) != fh || orc.HashF(g.Coeffs) != fh || orc.HashF(f.Coeffs) != fh || h.Degree() != n || g.Degree() != n {
				c.Fail("FourierPoly.Copy/CopyFrom "+name, "the copy differs")
			}
			h.Coeffs[i]++
			g.Coeffs[n-1-i]--
			if orc.HashF(f.Coeffs) != fh {
				c.Fail("FourierPoly.Copy/CopyFrom "+name, "writing to the copy changes the original")
			}
			h.Coeffs[i] = math.NaN()
			h.Clear()
			for j, x := range h.Coeffs {
				if x != 0 {
					c.Fail("FourierPoly.Clear "+name, "coefficient %d is left at %v", j, x)
				}
			}
			if orc.HashF(f.Coeffs) != fh {
				c.Fail("FourierPoly.Clear "+name, "clearing the copy changes the original")
			}
			c.Seen("values|%d|%d", n, round)
		}
	}
}

// decomposers hand out the buffers of exactly the levels asked for, and refuse more.
func (m *mon) decomposers() {
	c := m.c
	for n := poly.MinDegree; n <= 2048; n <<= 1 {
		for top := 0; top <= 9; top++ {
			d := poly.NewDecomposer(n, top)
			s := &space{}
			for l := 0; l < top; l++ { // ascending: each level adds one new pair
				p, f := d.GetPolyDecomposedBuffer(l+1), d.GetPolyFourierDecomposedBuffer(l+1)
				if len(p) != l+1 || len(f) != l+1 {
					c.Fail(fmt.Sprintf("decomposer for %d levels of degree %d", top, n), "asked for %d levels it gives %d and %d", l+1, len(p), len(f))
				}
				fresh(m, s, fmt.Sprintf("decomposer level %d of %d", l, top), p[l].Coeffs, n)
				fresh(m, s, fmt.Sprintf("Fourier decomposer level %d of %d", l, top), f[l].Coeffs, n)
			}
			for l := -3; l < 14; l++ {
				var a, b int
				pa := vk.Panics(func() { a = len(d.GetPolyDecomposedBuffer(l)) })
				pb := vk.Panics(func() { b = len(d.GetPolyFourierDecomposedBuffer(l)) })
				if bad := l < 0 || l > top; pa != bad || pb != bad || !bad && (a != l || b != l) {
					c.Fail(fmt.Sprintf("decomposer for %d levels of degree %d", top, n), "asked for %d levels: refused %v and %v, lengths %d and %d", l, pa, pb, a, b)
				}
				c.Seen("levels|%d|%d|%d", n, top, l)
			}
		}
	}
}

// pools runs random sequences on a polynomial evaluator and its pooled and named
// buffers beside a model of what the caller holds.
func (m *mon) pools(n int) {
	c, r := m.c, m.r
	e := poly.NewEvaluator(n)
	ref := poly.NewEvaluator(n)
	type held struct {
		v []T
		h uint64
	}
	const slots = 8
	dec := make([]*uint64, slots) // expected content of the decomposition buffers
	fft := make([][]T, slots)     // polynomial whose transform a Fourier buffer holds (small coefficients)
	acc := map[string][]T{}       // content of the named accumulators; nil: unknown
	var rots, trs []held
	put := func(q *[]held, v ...[]T) {
		for _, x := range v {
			if len(x) != n {
				c.Fail(fmt.Sprintf("pool of degree %d", n), "a buffer has %d coefficients", len(x))
			}
			orc.Fill(r, x)
			*q = append(*q, held{x, orc.HashT(x)})
		}
	}
	last := func(q []held, k int) []held {
		if len(q) > k {
			return q[len(q)-k:]
		}
		return q
	}
	trace := []string{}
	check := func() {
		rots, trs = last(rots, 4), last(trs, 8)
		for i, x := range append(append([]held{}, rots...), trs...) {
			if orc.HashT(x.v) != x.h {
				c.Fail(fmt.Sprintf("pools of degree %d after %v", n, tail(trace)), "a pooled buffer the caller still holds (number %d of %d+%d) has changed", i, len(rots), len(trs))
			}
		}
		for i, h := range dec {
			if h != nil && orc.HashT(e.GetDecompBuffer(i).Coeffs) != *h {
				c.Fail(fmt.Sprintf("pools of degree %d after %v", n, tail(trace)), "decomposition buffer %d has changed", i)
			}
		}
	}
	small := func() poly.Poly {
		p := poly.NewPoly(n)
		for i := range p.Coeffs {
			p.Coeffs[i] = T(int32(r.Intn(33) - 16))
		}
		return p
	}
	steps := c.Pick(2500, 20000) * 64 / (64 + n/4)
	names := []string{"fpAcc", "fpBcc", "fpDiff", "fpMul1", "fpMul2"}
	for s := 0; s < steps; s++ {
		op := r.Intn(17)
		trace = append(trace, fmt.Sprint(op))
		switch op {
		case 0, 1, 2:
			put(&rots, e.GetRotationBuffer())
		case 3, 4:
			a, b := e.GetTRLWEBuffer()
			put(&trs, a, b)
		case 5:
			p := poly.NewPoly(n)
			orc.Fill(r, p.Coeffs)
			v := e.PolyMulWithXK(p.Coeffs, r.Intn(4*n)-2*n)
			rots = append(rots, held{v, orc.HashT(v)})
		case 6:
			i := r.Intn(slots)
			b := e.GetDecompBuffer(i).Coeffs
			orc.Fill(r, b)
			h := orc.HashT(b)
			dec[i] = &h
		case 7:
			i := r.Intn(slots)
			p := poly.NewPoly(n)
			orc.Fill(r, p.Coeffs)
			e.CopyToDecompBuffer(p.Coeffs, i)
			h := orc.HashT(p.Coeffs)
			dec[i] = &h
		case 8:
			i := r.Intn(slots)
			p := small()
			e.ToFourierPolyInBuffer(p, i)
			fft[i] = p.Coeffs
		case 9:
			nm := names[r.Intn(len(names))]
			e.ClearBuffer(nm)
			acc[nm] = make([]T, n)
		case 10, 11, 12: // accumulate a product
			i, nm := r.Intn(slots), names[r.Intn(2)]
			if fft[i] == nil || acc[nm] == nil || n > 512 && s%4 != 0 {
				continue
			}
			p := poly.NewPoly(n)
			k := r.Intn(n)
			p.Coeffs[k] = 3 // 3*X^k: exact model in linear time
			e.MulAddFourierPolyAssignBuffered(i, ref.ToFourierPoly(p), nm)
			sum := append([]T(nil), acc[nm]...)
			for j := 0; j < n; j++ {
				if j+k < n {
					sum[j+k] += 3 * fft[i][j]
				} else {
					sum[j+k-n] -= 3 * fft[i][j]
				}
			}
			acc[nm] = sum
		case 13:
			nm := names[r.Intn(3)]
			out := make([]T, n)
			orc.Fill(r, out)
			e.BufferToPolyAssign(nm, out)
			if want := acc[nm]; want != nil && !orc.Eq(out, want) {
				c.Fail(fmt.Sprintf("buffer %s of degree %d after %v", nm, n, tail(trace)), "%s", orc.Diff(out, want))
			}
			acc[nm] = nil
		case 14:
			// the transforms keep the caller's buffers
			p, q := small(), small()
			switch r.Intn(5) {
			case 0:
				e.MulPoly(p, q) // uses the multiplication buffers
				acc["fpMul1"], acc["fpMul2"] = nil, nil
			case 1:
				e.ToPoly(e.ToFourierPoly(p))
			case 2:
				e.MulFourierPoly(e.ToFourierPoly(p), e.ToFourierPoly(q))
			case 3:
				out := poly.NewPoly(n)
				e.PolyMulWithXKDirect(p.Coeffs, r.Intn(2*n), out.Coeffs)
			case 4:
				e.ShallowCopy().MulPoly(p, q)
			}
		case 15:
			if r.Intn(4) == 0 {
				e.ResetRotationPool()
				rots = nil
			} else if r.Intn(3) == 0 {
				e.ResetTRLWEPool()
				trs = nil
			}
		case 16:
			if len(trs) >= 2 {
				a, b := trs[len(trs)-2].v, trs[len(trs)-1].v
				e.ClearTRLWEBuffer(a, b)
				for i := range a {
					if a[i] != 0 || b[i] != 0 {
						c.Fail(fmt.Sprintf("ClearTRLWEBuffer of degree %d", n), "coefficient %d is left at %d, %d", i, a[i], b[i])
					}
				}
				trs[len(trs)-2].h, trs[len(trs)-1].h = orc.HashT(a), orc.HashT(b)
			}
		}
		check()
		c.Seen("pool|%d|%d|%s", n, s, trace[len(trace)-1])
	}
	c.Count("pool_steps", int64(steps))
	// the Fourier decomposition buffers hold what was transformed into them
	for i := range fft {
		if fft[i] == nil {
			continue
		}
		want := ref.ToFourierPoly(poly.Poly{Coeffs: fft[i]})
		if orc.HashF(want.Coeffs) != orc.HashF(e.GetDecompFFTBuffer(i).Coeffs) {
			c.Fail(fmt.Sprintf("Fourier decomposition buffer %d of degree %d", i, n), "does not hold the transform of its polynomial")
		}
	}
	// refused arguments
	p := small()
	for _, i := range []int{-1, -7, 8, 9, 100, math.MaxInt, math.MinInt} {
		for what, f := range map[string]func(){
			"GetDecompBuffer":                 func() { e.GetDecompBuffer(i) },
			"GetDecompFFTBuffer":              func() { e.GetDecompFFTBuffer(i) },
			"ToFourierPolyInBuffer":           func() { e.ToFourierPolyInBuffer(p, i) },
			"CopyToDecompBuffer":              func() { e.CopyToDecompBuffer(p.Coeffs, i) },
			"MulAddFourierPolyAssignBuffered": func() { e.MulAddFourierPolyAssignBuffered(i, ref.ToFourierPoly(p), "fpAcc") },
		} {
			if !vk.Panics(f) {
				// a larger pool is no defect: what it gives must then be a buffer of its own
				if i < 0 || i > 64 {
					c.Fail(fmt.Sprintf("%s of buffer %d, degree %d", what, i, n), "an index outside the pool is not refused")
				}
			}
			c.Seen("refused|%s|%d|%d", what, i, n)
		}
	}
	for _, nm := range []string{"", "fpacc", "fpAcc ", "fpCcc", "fp", "FPACC", "decompFFT", "fpAcc\x00"} {
		for what, f := range map[string]func(){
			"ClearBuffer":                     func() { e.ClearBuffer(nm) },
			"BufferToPolyAssign":              func() { e.BufferToPolyAssign(nm, p.Coeffs) },
			"MulAddFourierPolyAssignBuffered": func() { e.MulAddFourierPolyAssignBuffered(0, ref.ToFourierPoly(p), nm) },
		} {
			if !vk.Panics(f) {
				c.Fail(fmt.Sprintf("%s(%q)", what, nm), "an unknown buffer name is not refused")
			}
			c.Seen("refused|%s|%q|%d", what, nm, n)
		}
	}
}

func tail(t []string) []string {
	if len(t) > 12 {
		return t[len(t)-12:]
	}
	return t
}

// objects: constructors of ciphertexts, keys and tables under one profile.
func (m *mon) objects(p orc.Profile) {
	c, r := m.c, m.r
	n0, n1, l := params.GetTLWELv0().N, params.GetTLWELv1().N, params.GetTRGSWLv1().L
	pe := poly.NewEvaluator(n1)
	for round := 0; round < c.Pick(4, 40); round++ {
		s := &space{}
		at := func(what string) string { return what + ", profile " + p.Name }
		for i := 0; i < 30; i++ {
			switch r.Intn(10) {
			case 0:
				x := tlwe.NewTLWELv0()
				fresh(m, s, at("NewTLWELv0"), x.P, n0+1)
				v := T(r.Uint32())
				y := append([]T(nil), x.P...)
				x.SetB(v)
				y[n0] = v
				if x.B() != v || !orc.Eq(x.P, y) {
					c.Fail(at("SetB"), "sets %d, reads %d; %s", v, x.B(), orc.Diff(x.P, y))
				}
			case 1:
				x := tlwe.NewTLWELv1()
				fresh(m, s, at("NewTLWELv1"), x.P, n1+1)
				v := T(r.Uint32())
				y := append([]T(nil), x.P...)
				x.SetB(v)
				y[n1] = v
				if !orc.Eq(x.P, y) {
					c.Fail(at("TLWELv1 SetB"), "%s", orc.Diff(x.P, y))
				}
			case 2:
				x := trlwe.NewTRLWELv1()
				fresh(m, s, at("NewTRLWELv1 A"), x.A, n1)
				fresh(m, s, at("NewTRLWELv1 B"), x.B, n1)
			case 3:
				x := trgsw.NewTRGSWLv1()
				if len(x.TRLWE) != 2*l {
					c.Fail(at("NewTRGSWLv1"), "has %d rows, want %d", len(x.TRLWE), 2*l)
				}
				for k := range x.TRLWE {
					fresh(m, s, at("NewTRGSWLv1 row A"), x.TRLWE[k].A, n1)
					fresh(m, s, at("NewTRGSWLv1 row B"), x.TRLWE[k].B, n1)
				}
			case 4:
				x := trgsw.NewTRGSWLv1FFTDummy(pe)
				if len(x.TRLWEFFT) != 2*l {
					c.Fail(at("NewTRGSWLv1FFTDummy"), "has %d rows, want %d", len(x.TRLWEFFT), 2*l)
				}
				for k := range x.TRLWEFFT {
					fresh(m, s, at("NewTRGSWLv1FFTDummy row A"), x.TRLWEFFT[k].A.Coeffs, n1)
					fresh(m, s, at("NewTRGSWLv1FFTDummy row B"), x.TRLWEFFT[k].B.Coeffs, n1)
				}
			case 5:
				x := lut.NewLookUpTable()
				fresh(m, s, at("NewLookUpTable A"), x.Poly.A, n1)
				fresh(m, s, at("NewLookUpTable B"), x.Poly.B, n1)
				m.table(x, s, at)
			case 6: // the transform of a gadget ciphertext is separate from it and between rows
				g := trgsw.NewTRGSWLv1().EncryptTorus(1, 1e-7, randKey(r, n1), pe)
				h := hashRows(g)
				x := trgsw.NewTRGSWLv1FFT(g, pe)
				if len(x.TRLWEFFT) != 2*l {
					c.Fail(at("NewTRGSWLv1FFT"), "has %d rows, want %d", len(x.TRLWEFFT), 2*l)
				}
				for k := range x.TRLWEFFT {
					for half, v := range [][]float64{x.TRLWEFFT[k].A.Coeffs, x.TRLWEFFT[k].B.Coeffs} {
						if len(v) != n1 {
							c.Fail(at("NewTRGSWLv1FFT"), "row %d has %d coefficients", k, len(v))
						}
						lo, size := span(v)
						if o := s.add(at(fmt.Sprintf("NewTRGSWLv1FFT row %d/%d", k, half)), v, lo, size); o != "" {
							c.Fail(at("NewTRGSWLv1FFT"), "row %d shares memory with %s", k, o)
						}
					}
				}
				for k := range x.TRLWEFFT {
					x.TRLWEFFT[k].A.Clear()
				}
				if hashRows(g) != h {
					c.Fail(at("NewTRGSWLv1FFT"), "writing to the transform changes the ciphertext")
				}
				c.Seen("fft|%s|%d|%d", p.Name, round, i)
			case 7:
				k := key.NewSecretKey()
				if len(k.KeyLv0) != n0 || len(k.KeyLv1) != n1 {
					c.Fail(at("NewSecretKey"), "dimensions %d, %d, want %d, %d", len(k.KeyLv0), len(k.KeyLv1), n0, n1)
				}
				for half, v := range [][]T{k.KeyLv0, k.KeyLv1} {
					lo, size := span(v)
					if o := s.add(at("NewSecretKey"), v, lo, size); o != "" {
						c.Fail(at("NewSecretKey"), "half %d shares memory with %s", half, o)
					}
				}
				c.Seen("key|%s|%d|%d", p.Name, round, i)
			case 9:
				x := trlwe.NewTRLWELv1FFTDummy()
				fresh(m, s, at("NewTRLWELv1FFTDummy A"), x.A, len(x.A))
				fresh(m, s, at("NewTRLWELv1FFTDummy B"), x.B, len(x.A))
				if len(x.A) < n1 {
					c.Fail(at("NewTRLWELv1FFTDummy"), "has %d coefficients for degree %d", len(x.A), n1)
				}
				ring, _ := orc.RandRing(r)
				ft := trlwe.NewTRLWELv1FFT(ring, pe)
				for half, v := range [][]float64{ft.A, ft.B} {
					lo, size := span(v)
					if o := s.add(at("NewTRLWELv1FFT"), v, lo, size); o != "" || len(v) < n1 {
						c.Fail(at("NewTRLWELv1FFT"), "half %d has %d coefficients, shares memory with %q", half, len(v), o)
					}
				}
				c.Seen("ringfft|%s|%d|%d", p.Name, round, i)
			case 8: // extraction: refused where the dimensions differ
				x := trlwe.NewTRLWELv1()
				orc.Fill(r, x.A)
				k := r.Intn(n1)
				if bad := vk.Panics(func() { trlwe.SampleExtractIndex2(x, k) }); bad != (n0 != n1) {
					c.Fail(at("SampleExtractIndex2"), "dimensions %d and %d: refused %v", n0, n1, bad)
				}
				y := trlwe.SampleExtractIndex(x, k)
				lo, size := span(y.P)
				if o := s.add(at("SampleExtractIndex"), y, lo, size); o != "" || len(y.P) != n1+1 {
					c.Fail(at("SampleExtractIndex"), "has %d coefficients, shares memory with %q", len(y.P), o)
				}
				for _, k := range []int{-1, n1, n1 + 5, -n1} {
					if !vk.Panics(func() { trlwe.SampleExtractIndex(x, k) }) {
						c.Fail(at("SampleExtractIndex"), "index %d is not refused", k)
					}
				}
				c.Seen("extract|%s|%d|%d", p.Name, round, i)
			}
		}
	}
}

// emptyKey: the entries of a cloud key without key material are clear and
// separate, so that they can be filled in one by one.
func (m *mon) emptyKey(p orc.Profile) {
	c := m.c
	n0, n1, l := params.GetTLWELv0().N, params.GetTLWELv1().N, params.GetTRGSWLv1().L
	ck := cloudkey.NewCloudKeyNoKSK()
	at := func(what string) string { return "NewCloudKeyNoKSK " + what + ", profile " + p.Name }
	if len(ck.BootstrappingKey) != n0 {
		c.Fail(at("bootstrapping key"), "has %d entries, want %d", len(ck.BootstrappingKey), n0)
	}
	g := params.GetTRGSWLv1()
	if want := n1 * g.IKS_T << g.BASEBIT; len(ck.KeySwitchingKey) != want {
		c.Fail(at("switching key"), "has %d entries, want %d", len(ck.KeySwitchingKey), want)
	}
	type place struct {
		what   string
		lo, up uintptr
	}
	var all []place
	add := func(what string, lo, size uintptr) { all = append(all, place{what, lo, lo + size}) }
	for i, e := range ck.BootstrappingKey {
		if len(e.TRLWEFFT) != 2*l {
			c.Fail(at("bootstrapping key"), "entry %d has %d rows, want %d", i, len(e.TRLWEFFT), 2*l)
		}
		for k, row := range e.TRLWEFFT {
			for half, v := range [][]float64{row.A.Coeffs, row.B.Coeffs} {
				if len(v) != n1 {
					c.Fail(at("bootstrapping key"), "entry %d row %d has %d coefficients, want %d", i, k, len(v), n1)
				}
				for _, x := range v {
					if x != 0 {
						c.Fail(at("bootstrapping key"), "entry %d row %d is not clear", i, k)
						break
					}
				}
				lo, size := span(v)
				add(fmt.Sprintf("entry %d row %d half %d of the bootstrapping key", i, k, half), lo, size)
			}
		}
	}
	for i, e := range ck.KeySwitchingKey {
		if len(e.P) != n0+1 {
			c.Fail(at("switching key"), "entry %d has %d coefficients, want %d", i, len(e.P), n0+1)
		}
		for _, x := range e.P {
			if x != 0 {
				c.Fail(at("switching key"), "entry %d is not clear", i)
				break
			}
		}
		lo, size := span(e.P)
		add(fmt.Sprintf("entry %d of the switching key", i), lo, size)
	}
	for half, v := range [][]T{ck.BlindRotateTestvec.A, ck.BlindRotateTestvec.B} {
		lo, size := span(v)
		add(fmt.Sprintf("half %d of the test vector", half), lo, size)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].lo < all[j].lo })
	for i, x := range all {
		if i > 0 && x.lo < all[i-1].up {
			c.Fail(at(""), "%s shares memory with %s", x.what, all[i-1].what)
		}
		c.Seen("empty key|%s|%s", p.Name, x.what)
	}
	c.Count("entries_of_empty_keys", int64(len(all)))
}

func randKey(r *rand.Rand, n int) []T {
	k := make([]T, n)
	for i := range k {
		k[i] = T(r.Intn(2))
	}
	return k
}

func hashRows(g *trgsw.TRGSWLv1) (h uint64) {
	for i := range g.TRLWE {
		h = h*31 + orc.HashT(g.TRLWE[i].A)
		h = h*31 + orc.HashT(g.TRLWE[i].B)
	}
	return
}

// table: copies of a table are separate, clearing clears.
func (m *mon) table(x *lut.LookUpTable, s *space, at func(string) string) {
	c := m.c
	a, b := append([]T(nil), x.Poly.A...), append([]T(nil), x.Poly.B...)
	y := x.Copy()
	z := lut.NewLookUpTable()
	orc.Fill(m.r, z.Poly.A)
	orc.Fill(m.r, z.Poly.B)
	z.CopyFrom(x)
	for _, t := range []*lut.LookUpTable{y, z} {
		if !orc.Eq(t.Poly.A, a) || !orc.Eq(t.Poly.B, b) {
			c.Fail(at("LookUpTable.Copy/CopyFrom"), "the copy differs")
		}
		for half, v := range [][]T{t.Poly.A, t.Poly.B} {
			lo, size := span(v)
			if o := s.add(at("table copy"), t, lo, size); o != "" {
				c.Fail(at("LookUpTable.Copy/CopyFrom"), "half %d shares memory with %s", half, o)
			}
		}
		t.Clear()
		for i := range t.Poly.A {
			if t.Poly.A[i] != 0 || t.Poly.B[i] != 0 {
				c.Fail(at("LookUpTable.Clear"), "coefficient %d is left at %d, %d", i, t.Poly.A[i], t.Poly.B[i])
			}
		}
	}
	if !orc.Eq(x.Poly.A, a) || !orc.Eq(x.Poly.B, b) {
		c.Fail(at("LookUpTable.Copy/CopyFrom"), "clearing the copies changes the original")
	}
}

// evaluators: the result pool and the buffer managers.
// poolFields: every exported buffer of evaluators, of their copies and of stand-alone
// pools has memory of its own.
func (m *mon) poolFields(at string, n int) {
	c := m.c
	s := &space{}
	count := 0
	var walk func(what string, v reflect.Value)
	walk = func(what string, v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer, reflect.Interface:
			if !v.IsNil() {
				walk(what, v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if f := v.Type().Field(i); f.IsExported() {
					walk(what+"."+f.Name, v.Field(i))
				}
			}
		case reflect.Array, reflect.Slice:
			if k := v.Type().Elem().Kind(); k != reflect.Uint32 && k != reflect.Float64 {
				for i := 0; i < v.Len(); i++ {
					walk(fmt.Sprintf("%s[%d]", what, i), v.Index(i))
				}
				return
			}
			if v.Kind() == reflect.Array || v.Len() == 0 {
				return
			}
			size := uintptr(v.Len()) * v.Type().Elem().Size()
			if o := s.add(what, v.Interface(), v.Pointer(), size); o != "" {
				c.Fail("buffers of an evaluator, "+at, "%s shares memory with %s", what, o)
			}
			c.Seen("field|%s|%s", at, what)
			count++
		}
	}
	e := evaluator.NewEvaluator(n)
	for _, x := range []struct {
		name string
		v    any
	}{
		{"Evaluator", e}, {"its copy", e.ShallowCopy()}, {"second Evaluator", evaluator.NewEvaluator(n)},
		{"BufferPool", evaluator.NewBufferPool(n)}, {"BufferManager", poly.NewBufferManager(n)},
	} {
		walk(x.name, reflect.ValueOf(x.v))
	}
	if count < 40 {
		c.Fail("buffers of an evaluator, "+at, "only %d exported buffers found", count)
	}
	c.Count("exported_pool_buffers", int64(count))
}

func (m *mon) evaluators() {
	c, r := m.c, m.r
	for _, p := range orc.Profiles {
		p.Use()
		n, l, n0 := params.GetTRGSWLv1().N, params.GetTRGSWLv1().L, params.GetTLWELv0().N
		at := "profile " + p.Name
		e := evaluator.NewEvaluator(n)
		es := []*evaluator.Evaluator{e, e.ShallowCopy(), evaluator.NewEvaluator(n)}
		type held struct {
			v []T
			h uint64
		}
		q := make([][]held, len(es))
		for s := 0; s < c.Pick(400, 5000); s++ {
			i := r.Intn(len(es))
			switch op := r.Intn(10); {
			case op == 0:
				es[i].ResetBuffers()
				q[i] = nil
			case op == 1:
				es[i] = es[r.Intn(len(es))].ShallowCopy()
				q[i] = nil
			default:
				x := es[i].Buffers.GetNextResult()
				if len(x.P) != n0+1 {
					c.Fail("result pool, "+at, "a result has %d coefficients, want %d", len(x.P), n0+1)
				}
				orc.Fill(r, x.P)
				q[i] = append(q[i], held{x.P, orc.HashT(x.P)})
				if len(q[i]) > 4 {
					q[i] = q[i][1:]
				}
			}
			for j := range q {
				for k, x := range q[j] {
					if orc.HashT(x.v) != x.h {
						c.Fail(fmt.Sprintf("result pool, %s, step %d", at, s), "temporary result %d of %d of evaluator %d has changed", k, len(q[j]), j)
					}
				}
			}
			c.Seen("results|%s|%d", p.Name, s)
		}
		c.Count("result_pool_steps", int64(c.Pick(400, 5000)))
		// far more requests than 8 or 16 bits count: still four different ones in turn
		long := func(what string, get func() *T) {
			c.Guard("long run of "+what+", "+at, func() {
				var last [3]*T
				for k := 0; k < 1<<16+400; k++ {
					x := get()
					if x == last[0] || x == last[1] || x == last[2] {
						c.Fail("long run of "+what+", "+at, "request %d is answered with a buffer handed out less than four requests before", k)
					}
					last = [3]*T{x, last[0], last[1]}
				}
			})
			c.Count("long_runs_of_pools", 1)
		}
		le, lm := evaluator.NewEvaluator(n), poly.NewBufferManager(n)
		long("temporary results", func() *T { return &le.Buffers.GetNextResult().P[0] })
		long("rotation buffers of an evaluator", func() *T { return &le.PolyEvaluator.GetRotationBuffer()[0] })
		long("ring buffers of an evaluator", func() *T { a, _ := le.PolyEvaluator.GetTRLWEBuffer(); return &a[0] })
		long("rotation buffers of a manager", func() *T { return &lm.GetRotationBuffer().Coeffs[0] })
		long("ring buffers of a manager", func() *T { a, _ := lm.GetTRLWEBuffer(); return &a[0] })
		m.poolFields(at, n)
		// buffer managers, alone and inside evaluators
		for d := 16; d <= 4096; d <<= 1 {
			for rep := 0; rep < 2; rep++ {
				bm := poly.NewBufferManager(d)
				if rep == 1 {
					if d != n {
						continue
					}
					bm = evaluator.NewEvaluator(n).Buffers.PolyBuffers
				}
				s := &space{}
				what := fmt.Sprintf("buffer manager of degree %d, %s: ", d, at)
				fresh(m, s, what+"FFT.Poly", bm.FFT.Poly.Coeffs, d)
				fresh(m, s, what+"FFT.Fourier", bm.FFT.Fourier.Coeffs, d)
				if len(bm.Decomposition.Poly) < 2*l || len(bm.Decomposition.Fourier) < 2*l {
					c.Fail(what, "%d and %d decomposition buffers, need %d", len(bm.Decomposition.Poly), len(bm.Decomposition.Fourier), 2*l)
				}
				for i := 0; i < 2*l; i++ {
					fresh(m, s, what+"Decomposition.Poly", bm.Decomposition.Poly[i].Coeffs, d)
					fresh(m, s, what+"Decomposition.Fourier", bm.Decomposition.Fourier[i].Coeffs, d)
				}
				fresh(m, s, what+"AccA", bm.Multiplication.AccA.Coeffs, d)
				fresh(m, s, what+"AccB", bm.Multiplication.AccB.Coeffs, d)
				fresh(m, s, what+"Temp", bm.Multiplication.Temp.Coeffs, d)
				fresh(m, s, what+"Poly1", bm.Temp.Poly1.Coeffs, d)
				fresh(m, s, what+"Poly2", bm.Temp.Poly2.Coeffs, d)
				fresh(m, s, what+"Poly3", bm.Temp.Poly3.Coeffs, d)
				var rot, tr []held
				for i := 0; i < 4; i++ {
					fresh(m, s, what+"rotation buffer", bm.GetRotationBuffer().Coeffs, d)
					a, b := bm.GetTRLWEBuffer()
					fresh(m, s, what+"ring buffer A", a, d)
					fresh(m, s, what+"ring buffer B", b, d)
				}
				for i := 0; i < 120; i++ {
					switch r.Intn(8) {
					case 0:
						bm.Reset()
						rot, tr = nil, nil
					case 1, 2, 3:
						x := bm.GetRotationBuffer().Coeffs
						orc.Fill(r, x)
						rot = append(rot, held{x, orc.HashT(x)})
					default:
						a, b := bm.GetTRLWEBuffer()
						orc.Fill(r, a)
						orc.Fill(r, b)
						tr = append(tr, held{a, orc.HashT(a)}, held{b, orc.HashT(b)})
					}
					if len(rot) > 4 {
						rot = rot[1:]
					}
					if len(tr) > 8 {
						tr = tr[2:]
					}
					for _, x := range append(append([]held{}, rot...), tr...) {
						if orc.HashT(x.v) != x.h {
							c.Fail(what, "a pooled buffer the caller still holds has changed")
						}
					}
					c.Seen("manager|%s|%d|%d|%d", p.Name, d, rep, i)
				}
			}
		}
	}
}
