package orc

import (
	"math"
	"math/rand"

	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/trlwe"
)

// Alpha1 is the standard deviation of the large-key noise as it survives the
// 32-bit torus: noise far below its resolution disappears.
func Alpha1() float64 {
	a := params.BSKAlpha()
	if a*math.Exp2(32) < 0.1 {
		return 0
	}
	return a
}

// ExtSD predicts the standard deviation of the phase error of an external
// product of a full-range ring ciphertext with an encryption of bit (alpha is
// the noise of the encryption): row noise, then rounding of the decomposition.
func ExtSD(bit int, alpha float64) float64 {
	g := params.GetTRGSWLv1()
	n, l, bg := float64(g.N), float64(g.L), float64(g.BG)
	v := 2 * l * n * bg * bg / 12 * alpha * alpha
	if bit != 0 {
		v += (1 + n/2) * math.Pow(bg, -2*l) / 12
	}
	return math.Sqrt(v) + FFTErr()
}

// FFTErr is an allowance for double precision rounding in one external product.
func FFTErr() float64 {
	g := params.GetTRGSWLv1()
	n, l, bg := float64(g.N), float64(g.L), float64(g.BG)
	// digits up to bg/2 times torus values up to 2^31, 2*l*n terms added with
	// random signs, log2(n) butterfly levels of relative error 2^-53, then times
	// the key: n/2 mask coefficients are added in the phase
	mag := bg / 2 * math.Exp2(31) * math.Sqrt(2*l*n)
	err := mag*math.Exp2(-53)*math.Sqrt(math.Log2(n)) + 1
	return err * math.Sqrt(1+n/2) / math.Exp2(32)
}

// FFTWorst is the allowance for inputs whose terms add up coherently (constant
// polynomials).
func FFTWorst() float64 {
	g := params.GetTRGSWLv1()
	n, l, bg := float64(g.N), float64(g.L), float64(g.BG)
	mag := bg / 2 * math.Exp2(31) * 2 * l * n
	err := mag*math.Exp2(-53)*math.Sqrt(math.Log2(n)) + 1
	return err * math.Sqrt(1+n/2) / math.Exp2(32)
}

// RotSD predicts the standard deviation of the phase error of a blind rotation.
func RotSD() float64 {
	n0 := float64(params.GetTLWELv0().N)
	a := ExtSD(0, Alpha1())
	b := ExtSD(1, Alpha1())
	return math.Sqrt(n0 * (a*a + b*b) / 2)
}

// RandRing makes ring ciphertexts of many shapes; kind describes it.
func RandRing(r *rand.Rand) (x *trlwe.TRLWELv1, kind string) {
	x = trlwe.NewTRLWELv1()
	n := len(x.A)
	switch r.Intn(9) {
	case 0:
		Fill(r, x.B)
		return x, "no mask"
	case 1:
		v := Edges[r.Intn(len(Edges))]
		w := Edges[r.Intn(len(Edges))]
		for i := range x.A {
			x.A[i], x.B[i] = v, w
		}
		return x, "constant edge values"
	case 2:
		for i := range x.A {
			x.A[i], x.B[i] = Edges[r.Intn(len(Edges))], Edges[r.Intn(len(Edges))]
		}
		return x, "edge values"
	case 3:
		x.A[r.Intn(n)] = T(r.Uint32())
		x.B[r.Intn(n)] = T(r.Uint32())
		return x, "monomials"
	case 4:
		for i := range x.A {
			x.A[i], x.B[i] = T(r.Intn(1<<14)), -T(r.Intn(1<<14))
		}
		return x, "small"
	case 5:
		return x, "zero"
	}
	Fill(r, x.A)
	Fill(r, x.B)
	return x, "uniform"
}
