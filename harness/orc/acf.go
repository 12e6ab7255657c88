package orc

import (
	"math"
	"math/cmplx"
)

// fft is the in-place radix 2 transform of a power of two of values.
func fft(a []complex128, inverse bool) {
	n := len(a)
	for i, j := 1, 0; i < n; i++ {
		bit := n >> 1
		for ; j&bit != 0; bit >>= 1 {
			j ^= bit
		}
		j ^= bit
		if i < j {
			a[i], a[j] = a[j], a[i]
		}
	}
	s := -2 * math.Pi
	if inverse {
		s = -s
	}
	w := make([]complex128, n/2)
	for i := range w {
		w[i] = cmplx.Rect(1, s*float64(i)/float64(n))
	}
	for l := 2; l <= n; l <<= 1 {
		step := n / l
		for i := 0; i < n; i += l {
			for k := 0; k < l/2; k++ {
				u, v := a[i+k], a[i+k+l/2]*w[k*step]
				a[i+k], a[i+k+l/2] = u+v, u-v
			}
		}
	}
}

// WorstLag returns the lag in 1..max at which the sequence is most correlated
// with itself, and that correlation in standard errors.
func WorstLag(xs []float64, max int) (lag int, z float64) {
	n := len(xs)
	if max >= n/2 {
		max = n / 2
	}
	m := 1
	for m < n+max+1 {
		m <<= 1
	}
	mean := 0.0
	for _, x := range xs {
		mean += x
	}
	mean /= float64(n)
	a := make([]complex128, m)
	for i, x := range xs {
		a[i] = complex(x-mean, 0)
	}
	fft(a, false)
	for i, x := range a {
		a[i] = complex(real(x)*real(x)+imag(x)*imag(x), 0)
	}
	fft(a, true)
	c0 := real(a[0])
	if c0 == 0 {
		return 0, 0
	}
	for l := 1; l <= max; l++ {
		v := real(a[l]) / c0 * float64(n) / math.Sqrt(float64(n-l))
		if math.Abs(v) > math.Abs(z) {
			lag, z = l, v
		}
	}
	return
}
