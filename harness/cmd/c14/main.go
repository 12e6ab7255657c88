// C14: multiplication by a monomial is the signed cyclic shift.
package main

import (
	"fmt"

	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"

	"verif/orc"
	"verif/vk"
)

type T = params.Torus

func main() {
	vk.Main(vk.Spec{
		Prop:        "C14",
		Rule:        "one evaluation = one multiplication by X^k compared with the model at every coefficient: moved coefficients exactly, negated ones up to one unit; the signature is (degree, k, variant, polynomial kind)",
		Assumptions: []string{"output and input are different buffers"},
		Shards:      func(string) int { return 8 },
		MinEvals:    20000,
		Run:         run,
	})
}

func run(c *vk.C) {
	type job struct{ n, part, of int }
	var jobs []job
	for n := 16; n <= 4096; n <<= 1 {
		of := 1 + n/256
		for i := 0; i < of; i++ {
			jobs = append(jobs, job{n, i, of})
		}
	}
	for n := 8192; n <= 1<<17; n <<= 1 { // beyond the degrees in use
		for i := 0; i < 4; i++ {
			jobs = append(jobs, job{n, i, 4})
		}
	}
	for ji, j := range jobs {
		if !c.Mine(ji) {
			continue
		}
		n := j.n
		e := poly.NewEvaluator(n)
		r := c.Rand("rot %d %d", n, j.part)
		var ks []int
		if n > 4096 {
			for k := -4; k <= 6; k++ {
				for d := -1; d <= 1; d++ {
					ks = append(ks, k*n+d)
				}
				ks = append(ks, k*n+r.Intn(n))
			}
		}
		for k := -4*n - 3; k <= 6*n+3 && n <= 4096; k++ { // several full turns both ways
			if (k+8*n)%j.of == j.part {
				ks = append(ks, k)
			}
		}
		for _, k := range []int{1 << 20, -1 << 20, 1<<31 - 1, -1 << 31, 1<<40 + 7, -(1<<40 + 7), 1<<62 + 1, -1<<63 + 5} {
			ks = append(ks, k)
		}
		stride := 1
		if c.Quick() && n >= 1024 && n <= 4096 {
			stride = n / 512
		}
		a := make([]T, n)
		for q, k := range ks {
			near := k%n == 0 || (k+1)%n == 0 || (k-1)%n == 0
			if q%stride != 0 && !near && k < 6*n+3 {
				continue
			}
			switch q % 3 {
			case 0:
				orc.Mixed(r, a)
			case 1:
				for i := range a {
					a[i] = orc.Edges[r.Intn(len(orc.Edges))]
				}
			case 2:
				for i := range a {
					a[i] = T(i + 1)
				}
			}
			keep := append([]T(nil), a...)
			// model: index and sign
			kk := k % (2 * n)
			if kk < 0 {
				kk += 2 * n
			}
			judge := func(v string, got []T) {
				if len(got) != n {
					c.Fail(v, "length %d", len(got))
				}
				for i := range keep {
					p := i + kk
					neg := (p/n)%2 == 1
					g := got[p%n]
					if !neg && g != keep[i] {
						c.Fail(fmt.Sprintf("N=%d k=%d %s", n, k, v), "coefficient %d moved to %d as %#x, want %#x", i, p%n, uint32(g), uint32(keep[i]))
					}
					if neg && orc.Dist(g, -keep[i]) > 1 {
						c.Fail(fmt.Sprintf("N=%d k=%d %s", n, k, v), "coefficient %d moved to %d as %#x, want the negation of %#x", i, p%n, uint32(g), uint32(keep[i]))
					}
				}
				if !orc.Eq(a, keep) {
					c.Fail(fmt.Sprintf("N=%d k=%d %s", n, k, v), "the operand changed")
				}
				c.Seen("%d|%d|%s|%d", n, k, v, q%3)
			}
			out := make([]T, n)
			orc.Mixed(r, out)
			poly.PolyMulWithXKInPlace(a, k, out)
			judge("PolyMulWithXKInPlace", out)
			first := append([]T(nil), out...)
			orc.Mixed(r, out)
			e.PolyMulWithXKDirect(a, k, out)
			judge("PolyMulWithXKDirect", out)
			if d, at := orc.MaxDist(out, first); d > 1 {
				c.Fail("agreement", "direct and in-place variants differ at %d", at)
			}
			if q%5 == 0 {
				e.ResetRotationPool()
			}
			got := e.PolyMulWithXK(a, k)
			judge("PolyMulWithXK", got)
			// the pool hands out another buffer for the next product
			g2 := e.PolyMulWithXK(got, 2*n-kk)
			want := 0
			for i := range g2 {
				if orc.Dist(g2[i], keep[i]) > 2 {
					want++
				}
			}
			if want > 0 {
				c.Fail(fmt.Sprintf("N=%d k=%d", n, k), "rotating by k and by 2N-k through the pool does not give the polynomial back (%d coefficients differ)", want)
			}
			judge("PolyMulWithXK result after the next pooled product", got)
			// two more products fit into the pool, and the operand may be reused
			// meanwhile: the result keeps its value
			other := make([]T, n)
			orc.Mixed(r, other)
			e.PolyMulWithXK(other, r.Intn(4*n))
			e.PolyMulWithXK(other, 0)
			copy(a, other)
			a[r.Intn(n)] ^= 1
			same := append([]T(nil), a...)
			copy(a, keep)
			judge("PolyMulWithXK result after its operand was overwritten", got)
			copy(a, same)
			for i := range got {
				got[i] = 0
			}
			if !orc.Eq(a, same) {
				c.Fail(fmt.Sprintf("N=%d k=%d PolyMulWithXK", n, k), "writing to the result changes the operand")
			}
		}
		c.Count("degree_parts", 1)
		c.Sample(fmt.Sprintf("N=%d: k from %d to %d and extremes", n, -4*n-3, 6*n+3))
	}
}
