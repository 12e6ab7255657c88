// Package orc holds the reference models the monitors judge by. Everything
// here is exact integer arithmetic written from the definition of the scheme;
// nothing of the library but its data types and parameter tables is used.
package orc

import (
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"sync"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
)

type T = params.Torus

// Profile is one parameter profile with what the monitors expect of it.
type Profile struct {
	Level params.SecurityLevel
	Name  string
	M     int     // native message modulus
	Sig   float64 // standard deviation of the noise a bootstrap leaves
	PBS   bool    // programmable bootstrapping is promised at modulus M
}

// Profiles lists every profile of the library. Sig is about a tenth above the
// root mean square usually measured on the repaired tree.
var Profiles = []Profile{
	{params.Security128Bit, "128", 2, 2.0e-3, true},
	{params.Security110Bit, "110", 2, 3.2e-3, true},
	{params.Security80Bit, "80", 2, 4.2e-3, true},
	{params.SecurityUint1, "uint1", 2, 1.05e-2, true},
	{params.SecurityUint2, "uint2", 4, 1.6e-3, true},
	{params.SecurityUint3, "uint3", 8, 1.7e-3, true},
	{params.SecurityUint4, "uint4", 16, 3.7e-4, true},
	{params.SecurityUint5, "uint5", 32, 7e-5, true},
	{params.SecurityUint6, "uint6", 64, 0, false},
	{params.SecurityUint7, "uint7", 128, 0, false},
	{params.SecurityUint8, "uint8", 256, 0, false},
}

// ByName returns the profile with that name.
func ByName(n string) Profile {
	for _, p := range Profiles {
		if p.Name == n {
			return p
		}
	}
	panic("no profile " + n)
}

// Use selects the profile.
func (p Profile) Use() { params.CurrentSecurityLevel = p.Level }

// Noises is what JudgeNoise reads the recorded noise from.
type Noises interface {
	SD(key string) (sd, mean float64, n int64)
	Fail(name, format string, args ...any)
}

// JudgeNoise bounds the spread and the mean of recorded bootstrap noise of one
// key pair. On 40 to 60 keys per profile the spread was at most 1.09 Sig in 100
// outputs and the mean had a deviation of 0.4 Sig.
func JudgeNoise(c Noises, name, key string, p Profile) {
	sd, mean, n := c.SD(key)
	if n < 60 {
		return
	}
	if b := (1.35 + 3/math.Sqrt(float64(n))) * p.Sig; sd > b {
		c.Fail(name, "output noise has deviation %g over %d outputs, bound %g", sd, n, b)
	}
	if math.Abs(mean) > 3*p.Sig {
		c.Fail(name, "output noise has mean %g over %d outputs, bound %g", mean, n, 3*p.Sig)
	}
}

// Keys is one key pair.
type Keys struct {
	P  Profile
	SK *key.SecretKey
	CK *cloudkey.CloudKey
}

var (
	keyMu    sync.Mutex
	keyCache = map[params.SecurityLevel]*Keys{}
)

// KeysFor selects the profile and returns the process-wide key pair for it.
func KeysFor(p Profile) *Keys {
	keyMu.Lock()
	defer keyMu.Unlock()
	p.Use()
	if k := keyCache[p.Level]; k != nil {
		return k
	}
	k := NewKeys(p)
	keyCache[p.Level] = k
	return k
}

// NewKeys selects the profile and generates a key pair.
func NewKeys(p Profile) *Keys {
	p.Use()
	sk := key.NewSecretKey()
	return &Keys{P: p, SK: sk, CK: cloudkey.NewCloudKey(sk)}
}

// Drop forgets a cached key pair (to bound memory).
func Drop(p Profile) {
	keyMu.Lock()
	delete(keyCache, p.Level)
	keyMu.Unlock()
}

// Phase is b - <a, s> of an LWE sample held as (a, b).
func Phase(p []T, s []T) T {
	n := len(s)
	acc := p[n]
	for i := 0; i < n; i++ {
		acc -= p[i] * s[i]
	}
	return acc
}

// Phase0 is the phase of a level 0 sample.
func Phase0(c *tlwe.TLWELv0, s []T) T { return Phase(c.P, s) }

// Mul is the exact product in Z_2^32[X]/(X^N+1).
func Mul(a, b []T) []T {
	n := len(a)
	out := make([]T, n)
	for i, x := range a {
		if x == 0 {
			continue
		}
		for j := 0; j < n-i; j++ {
			out[i+j] += x * b[j]
		}
		for j := n - i; j < n; j++ {
			out[i+j-n] -= x * b[j]
		}
	}
	return out
}

// Rot is X^k * a in Z_2^32[X]/(X^N+1), for any integer k.
func Rot(a []T, k int) []T {
	n := len(a)
	k %= 2 * n
	if k < 0 {
		k += 2 * n
	}
	out := make([]T, n)
	for i := range a {
		j := i + k
		v := a[i]
		for j >= n {
			j -= n
			v = -v
		}
		out[j] = v
	}
	return out
}

// PhaseRing is b - a*s of a ring sample.
func PhaseRing(c *trlwe.TRLWELv1, s []T) []T {
	as := Mul(s, c.A)
	out := make([]T, len(c.B))
	for i := range out {
		out[i] = c.B[i] - as[i]
	}
	return out
}

// Err is the signed distance got-want on the torus, as a fraction of it.
func Err(got, want T) float64 { return float64(int32(got-want)) / math.Exp2(32) }

// Dist is the absolute distance in least significant bits.
func Dist(a, b T) int64 {
	d := int64(int32(a - b))
	if d < 0 {
		return -d
	}
	return d
}

// Enc is round(x * 2^32) on the torus.
func Enc(x float64) T {
	x -= math.Floor(x)
	return T(uint64(math.Round(x * math.Exp2(32))))
}

// BoolMu is the encoding +1/8 or -1/8.
func BoolMu(b bool) T {
	if b {
		return 1 << 29
	}
	return 0xe0000000
}

// MsgMu is the encoding x/(2m).
func MsgMu(x, m int) T {
	x %= m
	if x < 0 {
		x += m
	}
	return T(uint64(math.Round(float64(x) * math.Exp2(31) / float64(m))))
}

// Switch rounds a torus element to the grid of 2N points.
func Switch(a T, n int) int {
	step := uint64(1<<32) / uint64(2*n)
	return int((uint64(a)+step/2)/step) % (2 * n)
}

// RotPhase is the exact rotation index a blind rotation performs on c: the
// mod-switched phase b - <a,s> in Z_2N.
func RotPhase(c *tlwe.TLWELv0, s []T, n int) int {
	acc := Switch(c.P[len(s)], n)
	for i := range s {
		if s[i] != 0 {
			acc -= int(s[i]) * Switch(c.P[i], n)
		}
	}
	acc %= 2 * n
	if acc < 0 {
		acc += 2 * n
	}
	return acc
}

// SwitchErr is the error of the mod-switch on c as a fraction of the torus.
func SwitchErr(c *tlwe.TLWELv0, s []T, n int) float64 {
	idx := RotPhase(c, s, n)
	step := T(uint64(1<<32) / uint64(2*n))
	return Err(T(idx)*step, Phase0(c, s))
}

// At reads a test vector at rotation index i in [0,2N): the constant
// coefficient of X^-i * v.
func At(v []T, i int) T {
	n := len(v)
	i %= 2 * n
	if i < 0 {
		i += 2 * n
	}
	if i < n {
		return v[i]
	}
	return -v[i-n]
}

// GridCT makes a level 0 ciphertext with the given phase whose coefficients lie
// exactly on the grid of 2N points, so that mod-switching adds no error. The
// phase is rounded to the grid.
func GridCT(r *rand.Rand, s []T, n int, phase T) *tlwe.TLWELv0 {
	step := T(uint64(1<<32) / uint64(2*n))
	c := tlwe.NewTLWELv0()
	var acc T
	kind, j := r.Intn(16), r.Intn(len(s))
	for i := range s {
		c.P[i] = T(r.Intn(2*n)) * step
		switch kind {
		case 0: // trivial
			c.P[i] = 0
		case 1: // one coefficient
			if i != j {
				c.P[i] = 0
			}
		case 2: // a constant
			c.P[i] = c.P[0]
		case 3: // half turns and none
			c.P[i] = T(r.Intn(2)) << 31
		}
		acc += c.P[i] * s[i]
	}
	c.P[len(s)] = acc + T(Switch(phase, n))*step
	return c
}

// CraftCT is ExactCT with a mask of any structure, for operations without rounding.
func CraftCT(r *rand.Rand, s []T, phase T) *tlwe.TLWELv0 {
	c := tlwe.NewTLWELv0()
	mask := c.P[:len(s)]
	if Mixed(r, mask); r.Intn(12) == 0 {
		Zero(mask)
	}
	var acc T
	for i := range s {
		acc += mask[i] * s[i]
	}
	c.P[len(s)] = acc + phase
	return c
}

// Zero clears v.
func Zero(v []T) {
	for i := range v {
		v[i] = 0
	}
}

// ExactCT makes a level 0 ciphertext with uniform mask and exactly that phase.
func ExactCT(r *rand.Rand, s []T, phase T) *tlwe.TLWELv0 {
	c := tlwe.NewTLWELv0()
	var acc T
	for i := range s {
		c.P[i] = T(r.Uint32())
		acc += c.P[i] * s[i]
	}
	c.P[len(s)] = acc + phase
	return c
}

// CloneLWE copies a level 0 ciphertext.
func CloneLWE(c *tlwe.TLWELv0) *tlwe.TLWELv0 {
	return &tlwe.TLWELv0{P: append([]T(nil), c.P...)}
}

// CloneRing copies a ring ciphertext.
func CloneRing(c *trlwe.TRLWELv1) *trlwe.TRLWELv1 {
	return &trlwe.TRLWELv1{A: append([]T(nil), c.A...), B: append([]T(nil), c.B...)}
}

// Eq compares two coefficient vectors.
func Eq(a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Diff describes the first difference of two vectors.
func Diff(got, want []T) string {
	if len(got) != len(want) {
		return fmt.Sprintf("length %d, want %d", len(got), len(want))
	}
	n, first := 0, -1
	for i := range got {
		if got[i] != want[i] {
			if first < 0 {
				first = i
			}
			n++
		}
	}
	if first < 0 {
		return "equal"
	}
	return fmt.Sprintf("%d of %d coefficients differ, first at %d: got %#x want %#x", n, len(got), first, uint32(got[first]), uint32(want[first]))
}

// MaxDist is the largest distance over two vectors, with its index.
func MaxDist(a, b []T) (int64, int) {
	var m int64
	at := 0
	if len(a) != len(b) {
		return math.MaxInt64, 0
	}
	for i := range a {
		if d := Dist(a[i], b[i]); d > m {
			m, at = d, i
		}
	}
	return m, at
}

// HashT hashes a coefficient vector. Any single changed coefficient changes the
// hash.
func HashT(v []T) uint64 {
	h := uint64(len(v)) + 0x9e3779b97f4a7c15
	for _, x := range v {
		h = (h ^ uint64(x)) * 0x9ddfea08eb382d69
		h ^= h >> 29
	}
	return h
}

// HashF hashes a float vector bit for bit.
func HashF(v []float64) uint64 {
	h := uint64(len(v)) + 0x9e3779b97f4a7c15
	for _, x := range v {
		h = (h ^ math.Float64bits(x)) * 0x9ddfea08eb382d69
		h ^= h >> 29
	}
	return h
}

// HashCK hashes a whole cloud key.
func HashCK(ck *cloudkey.CloudKey) uint64 {
	h := fnv.New64a()
	var parts []uint64
	parts = append(parts, uint64(ck.DecompositionOffset), HashT(ck.BlindRotateTestvec.A), HashT(ck.BlindRotateTestvec.B))
	res := make([]uint64, 8)
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			var x uint64
			for i := w; i < len(ck.KeySwitchingKey); i += 8 {
				x = x*1099511628211 + HashT(ck.KeySwitchingKey[i].P)
			}
			for i := w; i < len(ck.BootstrappingKey); i += 8 {
				x = x*1099511628211 + HashGSW(ck.BootstrappingKey[i])
			}
			res[w] = x
		}(w)
	}
	wg.Wait()
	for _, p := range append(parts, res...) {
		fmt.Fprintf(h, "%x,", p)
	}
	return h.Sum64()
}

// HashGSW hashes a TRGSW ciphertext in Fourier form.
func HashGSW(g *trgsw.TRGSWLv1FFT) uint64 {
	var x uint64
	for _, r := range g.TRLWEFFT {
		x = x*1099511628211 + HashF(r.A.Coeffs)
		x = x*1099511628211 + HashF(r.B.Coeffs)
	}
	return x
}

// Fill sets every coefficient to a pseudo-random value (to dirty a buffer).
func Fill(r *rand.Rand, v []T) {
	for i := range v {
		v[i] = T(r.Uint32())
	}
}

// Mixed fills v with uniform values half of the time, and otherwise with one of
// many structured patterns: code with shortcuts ("already clear", "constant",
// "sparse", "same as before") looks at samples of its operands.
func Mixed(r *rand.Rand, v []T) {
	Fill(r, v)
	n := len(v)
	if n == 0 || r.Intn(2) == 0 {
		return
	}
	zero := func(keep func(i int) bool) {
		for i := range v {
			if !keep(i) {
				v[i] = 0
			}
		}
	}
	j := r.Intn(n)
	switch r.Intn(16) {
	case 0: // one coefficient only
		zero(func(i int) bool { return i == j })
	case 1: // none but the ends are clear
		zero(func(i int) bool { return i != 0 && i != n-1 })
	case 2: // clear beginning
		zero(func(i int) bool { return i >= j })
	case 3: // clear end
		zero(func(i int) bool { return i <= j })
	case 4: // clear at the powers of two and their mirror images
		zero(func(i int) bool { return i&(i-1) != 0 && (n-i)&(n-i-1) != 0 })
	case 5: // non-zero at the powers of two only
		zero(func(i int) bool { return i&(i-1) == 0 })
	case 6: // constant
		for i := range v {
			v[i] = v[0]
		}
	case 7: // constant but for one coefficient
		x := v[0] + 1
		for i := range v {
			if i != j {
				v[i] = x
			}
		}
	case 8: // every second, fourth, eighth … is clear
		m := 2 << r.Intn(4)
		zero(func(i int) bool { return i%m != 0 })
	case 9: // all others are
		m := 2 << r.Intn(4)
		zero(func(i int) bool { return i%m == 0 })
	case 10: // second half repeats the first
		copy(v[n/2:], v[:n/2])
	case 11: // palindrome
		for i := 0; i < n/2; i++ {
			v[n-1-i] = v[i]
		}
	case 12: // small values
		for i := range v {
			v[i] = T(int32(v[i]) >> 24)
		}
	case 13: // values with clear low half
		for i := range v {
			v[i] &= 0xffff0000
		}
	case 14: // all clear
		zero(func(int) bool { return false })
	case 15: // edges
		for i := range v {
			v[i] = Edges[r.Intn(len(Edges))]
		}
	}
}

// Interesting torus values for boundary workloads.
var Edges = []T{0, 1, 2, 3, 0xffffffff, 0xfffffffe, 0x80000000, 0x7fffffff, 0x80000001, 0x40000000, 0xc0000000,
	0x20000000, 0xe0000000, 0x3fffffff, 0xbfffffff, 0x55555555, 0xaaaaaaaa, 0x00010000, 0xffff0000, 0x0000ffff}

// Current is the profile that is selected now.
func Current() Profile {
	for _, p := range Profiles {
		if p.Level == params.CurrentSecurityLevel {
			return p
		}
	}
	return Profiles[0]
}
