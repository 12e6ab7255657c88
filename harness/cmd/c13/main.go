// C13: the Fourier transform is an invertible ring homomorphism.
package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"

	"verif/orc"
	"verif/vk"
)

type T = params.Torus

func main() {
	vk.Main(vk.Spec{
		Prop: "C13",
		Rule: "one evaluation = one transform there and back, or one Fourier-domain operation transformed back and compared at every coefficient with the ring operation; the signature is (degree, operation, aliasing, operands)",
		Assumptions: []string{
			"operands of products are small enough for the exact product to fit double precision, so results must be exact; products of two full-range polynomials are compared up to 6*2^-53*log2(N)*|a|*|b| (Euclidean norms)",
		},
		Shards:   func(string) int { return 8 },
		MinEvals: 2000,
		Run:      run,
	})
}

func small(r *rand.Rand, n int, mag int64) []T {
	v := make([]T, n)
	for i := range v {
		v[i] = T(r.Int63n(2*mag+1) - mag)
	}
	return v
}

func dirtyF(r *rand.Rand, n int) poly.FourierPoly {
	f := poly.NewFourierPoly(n)
	for i := range f.Coeffs {
		f.Coeffs[i] = (r.Float64() - 0.5) * 1e12
		if i%17 == 3 {
			f.Coeffs[i] = math.NaN()
		}
		if i%17 == 4 {
			f.Coeffs[i] = math.Inf(1)
		}
	}
	return f
}

func comb(n int, f func(i int) T) []T {
	v := make([]T, n)
	for i := range v {
		v[i] = f(i)
	}
	return v
}

func run(c *vk.C) {
	type job struct{ n, rep int }
	var jobs []job
	for n := 16; n <= 4096; n <<= 1 {
		reps := c.Pick(60, 600)
		if n <= 512 {
			reps *= 4
		}
		for k := 0; k < reps; k++ {
			jobs = append(jobs, job{n, k})
		}
	}
	for k := 0; k < c.Pick(8, 32); k++ { // beyond the degrees in use
		jobs = append(jobs, job{8192, k})
		if k%2 == 0 {
			jobs = append(jobs, job{16384, k})
		}
		if k%16 == 5 && !c.Quick() {
			jobs = append(jobs, job{65536, k})
		}
	}
	evs := map[int]*poly.Evaluator{}
	for ji, j := range jobs {
		if !c.Mine(ji) {
			continue
		}
		e := evs[j.n]
		if e == nil {
			e = poly.NewEvaluator(j.n)
			evs[j.n] = e
		}
		if j.rep%3 == 2 {
			e = e.ShallowCopy()
		}
		one(c, e, j.n, j.rep)
	}
}

// shape sometimes gives a small polynomial a structure that code may have a shortcut for.
func shape(r *rand.Rand, v []T) {
	j := r.Intn(len(v))
	switch r.Intn(16) {
	case 0:
		for i := range v {
			v[i] = 0
		}
	case 1: // small enough for exact products with anything
		x := T(r.Intn(7)) - 3
		for i := range v {
			v[i] = x
		}
	case 2, 3, 4: // one coefficient: any, the first, the last
		j = []int{j, 0, len(v) - 1}[r.Intn(3)]
		for i := range v {
			if i != j {
				v[i] = 0
			}
		}
		if v[j] == 0 {
			v[j] = 1
		}
	case 5:
		for i := range v {
			if i >= j {
				v[i] = 0
			}
		}
	case 6:
		for i := range v {
			if i < j {
				v[i] = 0
			}
		}
	}
}

func one(c *vk.C, e *poly.Evaluator, n, rep int) {
	r := c.Rand("f %d %d", n, rep)
	a := make([]T, n)
	orc.Mixed(r, a)
	switch rep % 4 {
	case 1:
		for i := range a {
			a[i] = orc.Edges[r.Intn(len(orc.Edges))]
		}
	case 2:
		for i := range a {
			a[i] = 0x80000000
		}
	case 3:
		for i := range a {
			a[i] = 0
		}
		a[r.Intn(n)] = T(r.Uint32())
	}
	b := small(r, n, []int64{1, 15, 255}[r.Intn(3)])
	d := small(r, n, 31)
	shape(r, b)
	shape(r, d)
	if r.Intn(8) == 0 {
		copy(d, b)
		for i := range d { // equal up to the sizes allowed
			d[i] = T(int32(d[i]) % 32)
			b[i] = d[i]
		}
	}
	keepA := append([]T(nil), a...)
	exAB := orc.Mul(b, a)
	name := func(op string) string { return fmt.Sprintf("N=%d operands kind %d: %s", n, rep%4, op) }
	same := func(op string, got, want []T) {
		if !orc.Eq(got, want) {
			c.Fail(name(op), "%s", orc.Diff(got, want))
		}
		if !orc.Eq(a, keepA) {
			c.Fail(name(op), "the polynomial operand changed")
		}
		c.Seen("%d|%s|%x", n, op, orc.HashT(want))
	}
	keep := func(op string, f poly.FourierPoly, h uint64) {
		if orc.HashF(f.Coeffs) != h {
			c.Fail(name(op), "a Fourier operand changed")
		}
		c.Count("operands_rechecked", 1)
	}
	P := func(v []T) poly.Poly { return poly.Poly{Coeffs: v} }
	out := func() poly.Poly { // used output
		p := poly.NewPoly(n)
		orc.Mixed(r, p.Coeffs)
		return p
	}
	back := func(f poly.FourierPoly) []T { return e.ToPoly(f.Copy()).Coeffs }

	// there and back, all ways
	fa := e.ToFourierPoly(P(a))
	ha := orc.HashF(fa.Coeffs)
	same("ToPoly", e.ToPoly(fa).Coeffs, a)
	keep("ToPoly", fa, ha)
	o := out()
	e.ToPolyAssign(fa, o)
	same("ToPolyAssign", o.Coeffs, a)
	keep("ToPolyAssign", fa, ha)
	fd := dirtyF(r, n)
	e.ToFourierPolyAssign(P(a), fd)
	o = out()
	e.ToPolyAssignUnsafe(fd, o)
	same("ToFourierPolyAssign/ToPolyAssignUnsafe on used buffers", o.Coeffs, a)
	base := small(r, n, 1<<31-1)
	switch r.Intn(6) {
	case 0:
		orc.Mixed(r, base)
	case 1:
		copy(base, a)
	case 2:
		for i := range base {
			base[i] = -a[i]
		}
	case 3:
		base = make([]T, n)
	}
	o = poly.Poly{Coeffs: append([]T(nil), base...)}
	e.ToPolyAddAssignUnsafe(fa.Copy(), o)
	same("ToPolyAddAssignUnsafe", o.Coeffs, comb(n, func(i int) T { return base[i] + a[i] }))
	o = poly.Poly{Coeffs: append([]T(nil), base...)}
	e.ToPolySubAssignUnsafe(fa.Copy(), o)
	same("ToPolySubAssignUnsafe", o.Coeffs, comb(n, func(i int) T { return base[i] - a[i] }))
	// copies
	cp := fa.Copy()
	cp.Clear()
	keep("Copy/Clear", fa, ha)
	for i, x := range cp.Coeffs {
		if x != 0 {
			c.Fail(name("Clear"), "coefficient %d is %g", i, x)
		}
	}
	cf := dirtyF(r, n)
	cf.CopyFrom(fa)
	same("CopyFrom", back(cf), a)

	// operations
	fb := e.ToFourierPoly(P(b))
	fdd := e.ToFourierPoly(P(d))
	hb, hd := orc.HashF(fb.Coeffs), orc.HashF(fdd.Coeffs)
	add := comb(n, func(i int) T { return a[i] + b[i] })
	sub := comb(n, func(i int) T { return a[i] - b[i] })
	exDB := orc.Mul(d, b)
	mad := comb(n, func(i int) T { return a[i] + exDB[i] })
	msb := comb(n, func(i int) T { return a[i] - exDB[i] })
	ops := []struct {
		name string
		f    func(x, y, o poly.FourierPoly)
		want []T
	}{
		{"AddFourierPolyAssign", e.AddFourierPolyAssign, add},
		{"SubFourierPolyAssign", e.SubFourierPolyAssign, sub},
		{"MulFourierPolyAssign", e.MulFourierPolyAssign, exAB},
	}
	same("AddFourierPoly", back(e.AddFourierPoly(fa, fb)), add)
	same("SubFourierPoly", back(e.SubFourierPoly(fa, fb)), sub)
	same("MulFourierPoly", back(e.MulFourierPoly(fa, fb)), exAB)
	for _, op := range ops {
		f := dirtyF(r, n)
		op.f(fa, fb, f)
		same(op.name+" (used output)", back(f), op.want)
		keep(op.name, fa, ha)
		keep(op.name, fb, hb)
		f = fa.Copy()
		op.f(f, fb, f)
		same(op.name+" (output is operand 1)", back(f), op.want)
		f = fb.Copy()
		op.f(fa, f, f)
		same(op.name+" (output is operand 2)", back(f), op.want)
	}
	// the operands the other way round
	f := dirtyF(r, n)
	e.MulFourierPolyAssign(fb, fa, f)
	same("MulFourierPolyAssign (swapped, used output)", back(f), exAB)
	f = dirtyF(r, n)
	e.AddFourierPolyAssign(fb, fa, f)
	same("AddFourierPolyAssign (swapped, used output)", back(f), add)
	f = dirtyF(r, n)
	e.SubFourierPolyAssign(fb, fa, f)
	same("SubFourierPolyAssign (swapped, used output)", back(f), comb(n, func(i int) T { return b[i] - a[i] }))
	same("MulFourierPoly (swapped)", back(e.MulFourierPoly(fb, fa)), exAB)
	same("SubFourierPoly (swapped)", back(e.SubFourierPoly(fb, fa)), comb(n, func(i int) T { return b[i] - a[i] }))
	f = fa.Copy()
	e.MulAddFourierPolyAssign(fb, fdd, f)
	same("MulAddFourierPolyAssign (swapped)", back(f), mad)
	f = fa.Copy()
	e.MulSubFourierPolyAssign(fb, fdd, f)
	same("MulSubFourierPolyAssign (swapped)", back(f), msb)
	f = e.ToFourierPoly(P(make([]T, n)))
	e.MulAddFourierPolyAssign(fb, fa, f)
	same("MulAddFourierPolyAssign (onto zero)", back(f), exAB)
	f = e.ToFourierPoly(P(make([]T, n)))
	e.MulSubFourierPolyAssign(fb, fa, f)
	same("MulSubFourierPolyAssign (from zero)", back(f), comb(n, func(i int) T { return -exAB[i] }))
	f = fb.Copy()
	e.MulAddFourierPolyAssign(fdd, f, f)
	same("MulAddFourierPolyAssign (output is operand 2)", back(f), comb(n, func(i int) T { return b[i] + exDB[i] }))
	f = fb.Copy()
	e.MulSubFourierPolyAssign(f, fdd, f)
	same("MulSubFourierPolyAssign (output is operand 1)", back(f), comb(n, func(i int) T { return b[i] - exDB[i] }))
	exDD := orc.Mul(d, d)
	f = fa.Copy()
	e.MulAddFourierPolyAssign(fdd, fdd, f)
	same("MulAddFourierPolyAssign (square)", back(f), comb(n, func(i int) T { return a[i] + exDD[i] }))
	f = fb.Copy()
	e.MulFourierPolyAssign(f, f, f)
	same("MulFourierPolyAssign (square in place)", back(f), orc.Mul(b, b))
	f = fa.Copy()
	e.AddFourierPolyAssign(f, f, f)
	same("AddFourierPolyAssign (double in place)", back(f), comb(n, func(i int) T { return 2 * a[i] }))
	f = fa.Copy()
	e.SubFourierPolyAssign(f, f, f)
	same("SubFourierPolyAssign (cancel in place)", back(f), make([]T, n))
	f = fa.Copy()
	e.MulAddFourierPolyAssign(fdd, fb, f)
	same("MulAddFourierPolyAssign", back(f), mad)
	keep("MulAddFourierPolyAssign", fdd, hd)
	keep("MulAddFourierPolyAssign", fb, hb)
	f = fa.Copy()
	e.MulSubFourierPolyAssign(fdd, fb, f)
	same("MulSubFourierPolyAssign", back(f), msb)
	keep("MulSubFourierPolyAssign", fdd, hd)
	f = fb.Copy()
	e.MulAddFourierPolyAssign(f, fdd, f)
	same("MulAddFourierPolyAssign (output is operand 1)", back(f), comb(n, func(i int) T { return b[i] + exDB[i] }))
	f = fb.Copy()
	e.MulSubFourierPolyAssign(fdd, f, f)
	same("MulSubFourierPolyAssign (output is operand 2)", back(f), comb(n, func(i int) T { return b[i] - exDB[i] }))
	// scaling
	k := int64(r.Intn(2001) - 1000)
	if r.Intn(2) == 0 {
		k = []int64{0, 1, -1, 2, -2, 256, 1000}[r.Intn(7)]
	}
	f = dirtyF(r, n)
	e.FloatMulFourierPolyAssign(fa, float64(k), f)
	same("FloatMulFourierPolyAssign (used output)", back(f), comb(n, func(i int) T { return T(k) * a[i] }))
	keep("FloatMulFourierPolyAssign", fa, ha)
	f = fa.Copy()
	e.FloatMulFourierPolyAssign(f, float64(k), f)
	same("FloatMulFourierPolyAssign (in place)", back(f), comb(n, func(i int) T { return T(k) * a[i] }))
	f = fb.Copy()
	e.FloatMulAddFourierPolyAssign(fa, float64(k), f)
	same("FloatMulAddFourierPolyAssign", back(f), comb(n, func(i int) T { return b[i] + T(k)*a[i] }))
	keep("FloatMulAddFourierPolyAssign", fa, ha)
	f = fa.Copy()
	e.FloatMulAddFourierPolyAssign(f, float64(k), f)
	same("FloatMulAddFourierPolyAssign (in place)", back(f), comb(n, func(i int) T { return T(k+1) * a[i] }))
	f = dirtyF(r, n)
	e.ToFourierPolyAssign(P(b), f)
	e.FloatMulAddFourierPolyAssign(fdd, float64(k), f)
	same("FloatMulAddFourierPolyAssign (used output)", back(f), comb(n, func(i int) T { return b[i] + T(k)*T(d[i]) }))
	// halving an even polynomial of small coefficients
	ev := comb(n, func(i int) T { return 2 * b[i] })
	f = dirtyF(r, n)
	e.FloatMulFourierPolyAssign(e.ToFourierPoly(P(ev)), 0.5, f)
	same("FloatMulFourierPolyAssign (by one half)", back(f), b)

	// the buffered interface
	for i := 0; i < 8; i++ {
		switch i % 2 {
		case 0:
			e.ToFourierPolyInBuffer(P(b), i)
		default:
			orc.Mixed(r, e.GetDecompBuffer(i).Coeffs)
			e.CopyToDecompBuffer(b, i)
			same("CopyToDecompBuffer", e.GetDecompBuffer(i).Coeffs, b)
			e.ToFourierPolyInBuffer(*e.GetDecompBuffer(i), i)
		}
		same("ToFourierPolyInBuffer", back(*e.GetDecompFFTBuffer(i)), b)
	}
	for _, v := range [][]T{a, make([]T, n), d} {
		i := r.Intn(8)
		e.CopyToDecompBuffer(v, i)
		same("CopyToDecompBuffer", e.GetDecompBuffer(i).Coeffs, v)
		e.ToFourierPolyInBuffer(P(v), i)
		same("ToFourierPolyInBuffer", back(*e.GetDecompFFTBuffer(i)), v)
		e.ToFourierPolyInBuffer(P(b), i)
	}
	cnt := 1 + r.Intn(8)
	e.ClearBuffer("fpAcc")
	e.ClearBuffer("fpBcc")
	big := cnt // products of full-range operands: exact while few are added up
	if n >= 1024 && big > 2 {
		big = 2
	}
	for i := 0; i < cnt; i++ {
		e.MulAddFourierPolyAssignBuffered(i, fdd, "fpAcc")
		if i < big {
			e.MulAddFourierPolyAssignBuffered(i, fa, "fpBcc")
		}
	}
	o = out()
	e.BufferToPolyAssign("fpAcc", o.Coeffs)
	same("MulAddFourierPolyAssignBuffered fpAcc", o.Coeffs, comb(n, func(i int) T { return T(cnt) * exDB[i] }))
	o = out()
	e.BufferToPolyAssign("fpBcc", o.Coeffs)
	same("MulAddFourierPolyAssignBuffered fpBcc", o.Coeffs, comb(n, func(i int) T { return T(big) * exAB[i] }))
	keep("MulAddFourierPolyAssignBuffered", fdd, hd)
	keep("MulAddFourierPolyAssignBuffered", fa, ha)
	for _, nm := range []string{"fpAcc", "fpBcc", "fpDiff", "fpMul1", "fpMul2"} {
		e.ClearBuffer(nm)
		if nm == "fpAcc" || nm == "fpBcc" || nm == "fpDiff" {
			o = out()
			e.BufferToPolyAssign(nm, o.Coeffs)
			same("ClearBuffer "+nm, o.Coeffs, make([]T, n))
		}
	}
	// polynomials
	pc := P(a).Copy()
	pc.Clear()
	same("Poly.Copy/Clear", pc.Coeffs, make([]T, n))
	large(c, e, r, n, a)
	if rep == 0 {
		c.Sample(fmt.Sprintf("N=%d: round trips exact; %d accumulated products of the buffered interface exact", n, cnt))
	}
}

func norm(a []T) float64 {
	v := 0.0
	for _, x := range a {
		f := float64(int32(x))
		v += f * f
	}
	return math.Sqrt(v)
}

// large works with products far beyond the integers of double precision, and of a
// word: they are right up to the rounding of double precision.
func large(c *vk.C, e *poly.Evaluator, r *rand.Rand, n int, a []T) {
	b, d := make([]T, n), make([]T, n)
	orc.Mixed(r, b)
	orc.Mixed(r, d)
	if r.Intn(2) == 0 {
		for i := range b { // the largest products there are
			b[i] = 1<<31 + T(r.Intn(3))
		}
	}
	unit := 6 * math.Exp2(-53) * math.Log2(float64(n))
	P := func(v []T) poly.Poly { return poly.Poly{Coeffs: v} }
	fa, fb, fd := e.ToFourierPoly(P(a)), e.ToFourierPoly(P(b)), e.ToFourierPoly(P(d))
	ab, ad := orc.Mul(a, b), orc.Mul(a, d)
	eab, ead := unit*norm(a)*norm(b), unit*norm(a)*norm(d)
	near := func(op string, got []T, want func(i int) T, tol float64) {
		worst := 0.0
		for i := range got {
			dd := math.Abs(float64(int32(got[i] - want(i))))
			worst = math.Max(worst, dd)
			if dd > tol+1 {
				c.Fail(fmt.Sprintf("N=%d products of full-range operands: %s", n, op), "coefficient %d is off by %.0f, rounding allows %.0f", i, dd, tol+1)
			}
		}
		c.Noise("error of full-range products over the allowance", worst/(tol+1))
		c.Seen("%d|large %s|%x", n, op, orc.HashT(got))
	}
	p := e.MulFourierPoly(fa, fb)
	all := func(op string, f poly.FourierPoly, want func(i int) T, tol float64) {
		near(op+", ToPoly", e.ToPoly(f).Coeffs, want, tol)
		o := e.NewPoly()
		orc.Mixed(r, o.Coeffs)
		e.ToPolyAssign(f, o)
		near(op+", ToPolyAssign", o.Coeffs, want, tol)
		orc.Mixed(r, o.Coeffs)
		e.ToPolyAssignUnsafe(f.Copy(), o)
		near(op+", ToPolyAssignUnsafe", o.Coeffs, want, tol)
		orc.Mixed(r, o.Coeffs)
		base := append([]T(nil), o.Coeffs...)
		e.ToPolyAddAssignUnsafe(f.Copy(), o)
		near(op+", ToPolyAddAssignUnsafe", o.Coeffs, func(i int) T { return base[i] + want(i) }, tol)
		copy(o.Coeffs, base)
		e.ToPolySubAssignUnsafe(f.Copy(), o)
		near(op+", ToPolySubAssignUnsafe", o.Coeffs, func(i int) T { return base[i] - want(i) }, tol)
	}
	all("product", p, func(i int) T { return ab[i] }, eab)
	f := p.Copy()
	e.MulAddFourierPolyAssign(fa, fd, f)
	all("sum of two", f, func(i int) T { return ab[i] + ad[i] }, eab+ead)
	f = p.Copy()
	e.MulSubFourierPolyAssign(fd, fa, f)
	all("difference of two", f, func(i int) T { return ab[i] - ad[i] }, eab+ead)
	k := r.Intn(2000) - 1000
	f = p.Copy()
	e.FloatMulAddFourierPolyAssign(e.MulFourierPoly(fa, fd), float64(k), f)
	all("multiple of one added to another", f, func(i int) T { return ab[i] + T(k)*ad[i] }, eab+math.Abs(float64(k))*ead)
	f = e.SubFourierPoly(p, p)
	all("cancelled", f, func(int) T { return 0 }, 0)
	c.Count("full_range_products", 5)
}
