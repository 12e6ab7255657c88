// C12: polynomial multiplication is negacyclic and accurate.
package main

import (
	"fmt"
	"math"
	"math/bits"
	"math/rand"

	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"

	"verif/orc"
	"verif/vk"
)

type T = params.Torus

func main() {
	vk.Main(vk.Spec{
		Prop: "C12",
		Rule: "one evaluation = one product (plain, accumulating or subtracting) compared at every coefficient with the exact schoolbook product modulo X^N+1 and 2^32; the signature is (degree, variant, operand shapes, magnitude, operand values)",
		Assumptions: []string{
			"rounding error of the double-precision transform is bounded by 4*2^-53*log2(N)*|a|*|b| (Euclidean norms); products for which that is below 1/4 must be exact",
		},
		Shards:   func(string) int { return 8 },
		MinEvals: 1000,
		Run:      run,
	})
}

func shape(r *rand.Rand, kind, n int, mag int64) []T {
	v := make([]T, n)
	switch kind {
	case 0: // uniform
		for i := range v {
			v[i] = T(r.Int63n(2*mag+1) - mag)
		}
	case 1: // one coefficient
		v[r.Intn(n)] = T(mag)
	case 2: // extremes
		for i := range v {
			v[i] = T(mag * int64(2*r.Intn(2)-1))
		}
	case 3: // all the same extreme
		for i := range v {
			v[i] = T(-mag)
		}
	case 4: // binary
		for i := range v {
			v[i] = T(r.Intn(2))
		}
	case 5: // last coefficient only
		v[n-1] = T(-mag)
	case 6: // sparse
		for k := 0; k < 3; k++ {
			v[r.Intn(n)] = T(r.Int63n(2*mag+1) - mag)
		}
	case 7: // zero
	}
	return v
}

func norm(v []T) float64 {
	s := 0.0
	for _, x := range v {
		f := float64(int32(x))
		s += f * f
	}
	return math.Sqrt(s)
}

func run(c *vk.C) {
	type job struct{ n, rep int }
	var jobs []job
	for n := 16; n <= 4096; n <<= 1 {
		reps := c.Pick(40, 400)
		if n <= 256 {
			reps *= 8
		}
		for k := 0; k < reps; k++ {
			jobs = append(jobs, job{n, k})
		}
	}
	for k := 0; k < c.Pick(8, 32); k++ { // beyond the degrees in use
		jobs = append(jobs, job{8192, k})
		if k%2 == 0 {
			jobs = append(jobs, job{16384, k})
		}
		if k%16 == 5 && !c.Quick() {
			jobs = append(jobs, job{65536, k})
		}
	}
	evs := map[int]*poly.Evaluator{}
	for ji, j := range jobs {
		if !c.Mine(ji) {
			continue
		}
		n := j.n
		e := evs[n]
		if e == nil {
			e = poly.NewEvaluator(n)
			evs[n] = e
		}
		if j.rep%3 == 2 {
			e = e.ShallowCopy()
		}
		r := c.Rand("mul %d %d", n, j.rep)
		logn := float64(bits.Len(uint(n)) - 1)
		for ak := 0; ak < 8; ak++ {
			mag := []int64{1, 3, 32, 512, 1 << 9, 1 << 15, 1 << 21, 1 << 24, 1<<31 - 1}[r.Intn(9)]
			a := shape(r, ak, n, mag)
			b := make([]T, n)
			bk := (ak + j.rep) % 5
			switch bk {
			case 0, 1:
				orc.Mixed(r, b)
			case 2:
				for i := range b {
					b[i] = 0x80000000
				}
			case 3:
				for i := range b {
					b[i] = orc.Edges[r.Intn(len(orc.Edges))]
				}
			case 4:
				b = shape(r, r.Intn(8), n, 1<<31-1)
			}
			if (ak+2*j.rep)%9 == 8 { // a square: one storage for both operands
				b, bk = a, 9
			}
			swap := r.Intn(2) == 1
			x, y := a, b
			if swap {
				x, y = b, a
			}
			kx, ky := append([]T(nil), x...), append([]T(nil), y...)
			exact := orc.Mul(a, b)
			bound := 4 * math.Exp2(-53) * logn * norm(a) * norm(b)
			lim := int64(0)
			if bound >= 0.25 {
				lim = int64(math.Ceil(bound)) + 1
			}
			name := fmt.Sprintf("N=%d small operand kind=%d magnitude=%d other kind=%d swapped=%v", n, ak, mag, bk, swap)
			px, py := poly.Poly{Coeffs: x}, poly.Poly{Coeffs: y}
			acc := make([]T, n)
			orc.Mixed(r, acc)
			out := poly.Poly{Coeffs: append([]T(nil), acc...)}
			judge := func(op string, got []T, base []T, sign T) {
				want := make([]T, n)
				for i := range want {
					want[i] = base[i] + sign*exact[i]
				}
				d, at := orc.MaxDist(got, want)
				if d > lim {
					c.Fail(name, "%s: coefficient %d is %#x, want %#x; off by %d units, allowed %d", op, at, uint32(got[at]), uint32(want[at]), d, lim)
				}
				if lim > 0 {
					c.Noise(fmt.Sprintf("error_over_bound_N%d", n), float64(d)/bound)
				} else {
					c.Count("exact_products", 1)
				}
				if !orc.Eq(x, kx) || !orc.Eq(y, ky) {
					c.Fail(name, "%s changed an operand", op)
				}
				c.Seen("%d|%s|%d|%d|%d|%v|%x", n, op, ak, bk, mag, swap, orc.HashT(exact))
			}
			zero := make([]T, n)
			judge("MulPoly", e.MulPoly(px, py).Coeffs, zero, 1)
			e.MulPolyAssign(px, py, out)
			judge("MulPolyAssign", out.Coeffs, zero, 1)
			copy(out.Coeffs, acc)
			e.MulAddPolyAssign(px, py, out)
			judge("MulAddPolyAssign", out.Coeffs, acc, 1)
			e.MulSubPolyAssign(px, py, out)
			if lim == 0 {
				judge("MulAddPolyAssign then MulSubPolyAssign", out.Coeffs, acc, 0)
			}
			copy(out.Coeffs, acc)
			e.MulSubPolyAssign(px, py, out)
			judge("MulSubPolyAssign", out.Coeffs, acc, ^T(0))
			if j.rep == 0 && ak == 0 {
				c.Sample(fmt.Sprintf("%s: allowed %d units", name, lim))
			}
		}
	}
}
