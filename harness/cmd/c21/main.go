// C21: keys, masks and noise are fresh, unbiased and never repeat.
package main

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/thedonutfactory/go-tfhe/bitutils"
	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"

	"verif/orc"
	"verif/vk"
)

type T = params.Torus

const procs = 8

func main() {
	vk.Main(vk.Spec{
		Prop: "C21",
		Rule: "one evaluation = one secret key or one ciphertext (of any kind, or key entry) whose mask and noise enter the collision search and the statistics; signature = content of the mask",
		Assumptions: []string{
			"every run of four consecutive mask coefficients, up to a constant, sign and direction (or 96 key bits) whose hash falls into a fixed fraction of the hash space is compared with all others, over all processes: any shared stretch of a stream of a few hundred coefficients is found; the chance of a coincidence is below 1e-4",
			"statistical bounds are at 6.5 standard errors or more",
			"seeding from fewer than about 2^38 seeds shows up as a repeated stream in this many encryptions",
		},
		Shards:   func(string) int { return procs },
		MinEvals: 100000,
		Run:      run,
	})
}

// rec is the online recorder of one process.
type rec struct {
	sync.Mutex
	c     *vk.C
	wins  []win
	kinds []string
	st    map[string]*ustat
	nst   map[string]*nstat
	kst   map[string]*kstat
	id    uint32
}

type win struct {
	h    uint64
	id   uint32 // process and ciphertext
	kind uint32
}

// ustat is the uniformity record of one kind of mask.
type ustat struct {
	cts    int64
	n      int64
	hi, lo [256]int64
	bits   [32]int64
	bitN   int64
	pos    []int64 // top bit by position
	posN   int64
	serial float64 // sum of products of neighbours
	// dependence on the message: per position, sums of message times centred
	// coefficient and message times lowest bit; the body comes last
	withTop, withLow []float64
	mm               float64
	// dependence on the noise, per position
	noiseTop, noiseLow []float64
	noiseN             float64
	// the noise of each of the first messages: count, sum, sum of squares
	noiseOf map[T]*[3]float64
	body    [256]int64
	bodyN   int64
	// linear relations between bits of the mask, by message
	rel map[T][]*orc.GF2
}

// the bit planes of masks that are searched for relations
var planes = []int{0, 1, 16, 31}

// kstat is the record of the bits of the secret keys of one profile.
type kstat struct {
	keys     int64
	ones     [2][]int64
	equal    [2]int64 // equal neighbours
	pairs    [2]int64
	pattern  [2][256]int64
	patterns [2]int64
	cross    int64 // equal bits at the same position of both keys
	crossN   int64
}

// nstat is the noise record of one kind.
type nstat struct {
	sd              float64
	n               float64
	sum, sq         float64
	over            [3]float64 // beyond 1, 2, 3 deviations
	pos             float64
	prev            float64
	havePrev        bool
	cross           float64
	nx              float64
	zeros           float64
	maskCross, mskN float64
	seq             []float64 // the first values in order
}

func newRec(c *vk.C) *rec {
	return &rec{c: c, st: map[string]*ustat{}, nst: map[string]*nstat{}, kst: map[string]*kstat{}}
}

func mix(a, b, d uint64) uint64 {
	h := a*0x9e3779b97f4a7c15 ^ (b+0x7f4a7c15)*0xbf58476d1ce4e5b9 ^ (d+0x1ce4e5b9)*0x94d049bb133111eb
	h ^= h >> 31
	h *= 0xd6e8feb86659fd93
	h ^= h >> 32
	h *= 0xd6e8feb86659fd93
	h ^= h >> 29
	return h
}

// mask records one mask.
func (q *rec) mask(kind string, a []T) { q.full(kind, a, 0, 0, math.NaN(), true) }

// combined records one mask that is a combination of few public ones.
func (q *rec) combined(kind string, a []T) { q.full(kind, a, 0, 0, math.NaN(), false) }

// full records one mask and, when the message is not zero, how it and the body go
// with the message (which the encryption must not show). noise, in deviations and
// NaN when it is not known, must not go with the mask or the message either.
func (q *rec) full(kind string, a []T, body, mu T, noise float64, independent bool) {
	allZero := true
	for _, v := range a {
		if v != 0 {
			allZero = false
			break
		}
	}
	if allZero {
		q.c.Fail(kind, "a mask is entirely zero")
	}
	var local []uint64
	for i := 0; i+3 < len(a); i++ {
		// the steps between four neighbours, the same for a stretch that is
		// shifted by a constant, negated or read backwards
		d0, d1, d2 := a[i+1]-a[i], a[i+2]-a[i+1], a[i+3]-a[i+2]
		if d1>>31 != 0 {
			d0, d1, d2 = -d0, -d1, -d2
		}
		if d0 > d2 {
			d0, d2 = d2, d0
		}
		h := mix(uint64(d0), uint64(d1), uint64(d2))
		if h%96 == 0 {
			local = append(local, h)
		}
	}
	q.Lock()
	defer q.Unlock()
	q.record(kind, local, orc.HashT(a))
	s := q.st[kind]
	if s == nil {
		s = &ustat{pos: make([]int64, len(a)), withTop: make([]float64, len(a)+1), withLow: make([]float64, len(a)+1), rel: map[T][]*orc.GF2{}}
		q.st[kind] = s
	}
	rel := s.rel[mu]
	if independent && rel == nil && len(s.rel) < 2 { // the first two messages of a kind
		d := len(a) + 2 // a constant and the sign of the noise
		if math.IsNaN(noise) {
			d--
		}
		for range planes {
			rel = append(rel, orc.NewGF2(d))
		}
		s.rel[mu] = rel
	}
	for p, g := range rel {
		g.Add(func(i int) bool {
			if i > len(a) {
				return noise < 0
			}
			return i == len(a) || a[i]>>planes[p]&1 == 1
		})
	}
	if !math.IsNaN(noise) {
		if s.noiseTop == nil {
			s.noiseTop, s.noiseLow = make([]float64, len(a)), make([]float64, len(a))
		}
		for i, v := range a {
			s.noiseTop[i] += float64(int32(v)) * noise
			s.noiseLow[i] += float64(int32(v<<31|1<<30)>>30) * noise
		}
		s.noiseN++
		if s.noiseOf == nil {
			s.noiseOf = map[T]*[3]float64{}
		}
		if w := s.noiseOf[mu]; w != nil || len(s.noiseOf) < 40 {
			if w == nil {
				w = new([3]float64)
				s.noiseOf[mu] = w
			}
			w[0]++
			w[1] += noise
			w[2] += noise * noise
		}
	}
	if mu != 0 {
		m := float64(int32(mu)) / math.Exp2(32)
		s.mm += m * m
		for i, v := range a {
			s.withTop[i] += float64(int32(v)) * m
			s.withLow[i] += float64(int32(v<<31|1<<30)>>30) * m // ±1
		}
		s.withTop[len(a)] += float64(int32(body)) * m
		s.withLow[len(a)] += float64(int32(body<<31|1<<30)>>30) * m
		s.body[body>>24]++
		s.bodyN++
	}
	s.cts++
	deep := s.cts%8 == 0
	prev := 0.0
	for i, v := range a {
		s.hi[v>>24]++
		s.lo[v&255]++
		if i < len(s.pos) {
			s.pos[i] += int64(v >> 31)
		}
		x := float64(v)/math.Exp2(32) - 0.5
		if i > 0 {
			s.serial += x * prev
		}
		prev = x
		if deep {
			for b := 0; b < 32; b++ {
				s.bits[b] += int64(v>>b) & 1
			}
			s.bitN++
		}
	}
	s.posN++
	s.n += int64(len(a))
}

func (q *rec) record(kind string, local []uint64, sig uint64) {
	k := -1
	for i, n := range q.kinds {
		if n == kind {
			k = i
		}
	}
	if k < 0 {
		q.kinds = append(q.kinds, kind)
		k = len(q.kinds) - 1
	}
	q.id++
	for _, h := range local {
		q.wins = append(q.wins, win{h, uint32(q.c.Shard)<<28 | q.id, uint32(k)})
	}
	q.c.SeenHash(sig)
}

// noise records one noise value (torus fraction) drawn with deviation sd, with
// the first mask coefficient next to it.
func (q *rec) noise(kind string, sd, e float64, mask T) {
	q.Lock()
	defer q.Unlock()
	s := q.nst[kind]
	if s == nil {
		s = &nstat{sd: sd}
		q.nst[kind] = s
	}
	if math.Abs(e) > 8*sd+4*math.Exp2(-32) {
		q.c.Fail(kind, "noise %g is more than 8 times the requested deviation %g", e, sd)
	}
	s.n++
	s.sum += e
	s.sq += e * e
	for i := range s.over {
		if math.Abs(e) > float64(i+1)*sd {
			s.over[i]++
		}
	}
	if e > 0 {
		s.pos++
	}
	if e == 0 {
		s.zeros++
	}
	if s.havePrev {
		s.cross += e * s.prev
		s.nx++
	}
	s.maskCross += e * (float64(mask)/math.Exp2(32) - 0.5)
	s.mskN++
	s.prev, s.havePrev = e, true
	if len(s.seq) < 1<<19 {
		s.seq = append(s.seq, e)
	}
}

// judge applies the statistical bounds.
func (q *rec) judge() {
	c := q.c
	for kind, s := range q.st {
		for name, h := range map[string]*[256]int64{"top": &s.hi, "bottom": &s.lo} {
			chi, exp := 0.0, float64(s.n)/256
			for _, v := range h {
				d := float64(v) - exp
				chi += d * d / exp
			}
			// 255 degrees of freedom: normal approximation, 8 deviations
			if z := (chi - 255) / math.Sqrt(510); z > 8 || z < -8 {
				c.Fail(kind, "%s byte of the mask coefficients is not uniform: chi square %.1f over %d values", name, chi, s.n)
			}
		}
		for b, v := range s.bits {
			f := float64(s.bitN)
			if z := (float64(v) - f/2) / math.Sqrt(f/4); f > 100 && math.Abs(z) > 6.5 {
				c.Fail(kind, "bit %d of the mask coefficients is 1 in %d of %d", b, v, s.bitN)
			}
		}
		for i, v := range s.pos {
			f := float64(s.posN)
			if z := (float64(v) - f/2) / math.Sqrt(f/4); f > 400 && math.Abs(z) > 6.5 {
				c.Fail(kind, "top bit of mask coefficient %d is 1 in %d of %d", i, v, s.posN)
			}
		}
		if z := s.serial / (math.Sqrt(float64(s.n)) / 12); math.Abs(z) > 6.5 {
			c.Fail(kind, "neighbouring mask coefficients are correlated (%.1f standard errors)", z)
		}
		for mu, rel := range s.rel {
			for p, g := range rel {
				if g.Deficient() {
					c.Fail(kind, "bits %d of the mask coefficients satisfy a linear relation in all %d encryptions of %#x", planes[p], g.N, mu)
				}
				if g.Done() {
					c.Count("mask_bit_planes_free_of_relations", 1)
				}
			}
		}
		for i := range s.noiseTop {
			if z := s.noiseTop[i] / math.Exp2(32) / math.Sqrt(s.noiseN/12); s.noiseN > 100 && math.Abs(z) > 7.5 {
				c.Fail(kind, "mask coefficient %d goes with the noise (%.1f standard errors over %.0f encryptions)", i, z, s.noiseN)
			}
			if z := s.noiseLow[i] / math.Sqrt(s.noiseN); s.noiseN > 100 && math.Abs(z) > 7.5 {
				c.Fail(kind, "the lowest bit of mask coefficient %d goes with the noise (%.1f standard errors over %.0f encryptions)", i, z, s.noiseN)
			}
		}
		for mu, w := range s.noiseOf {
			if w[0] < 60 {
				continue
			}
			if z := w[1] / math.Sqrt(w[0]); math.Abs(z) > 7 {
				c.Fail(kind, "the noise of %.0f encryptions of %#x has mean %g deviations", w[0], uint32(mu), w[1]/w[0])
			}
			if v := w[2] / w[0]; math.Abs(v-1) > 0.05+9*math.Sqrt(2/w[0]) {
				c.Fail(kind, "the noise of %.0f encryptions of %#x has variance %g instead of 1", w[0], uint32(mu), v)
			}
			c.Count("messages_with_their_own_noise_statistics", 1)
		}
		c.Count("ciphertexts_whose_noise_was_compared_with_their_mask", int64(s.noiseN))
		if s.mm > 0 {
			for i := range s.withTop {
				where := fmt.Sprintf("mask coefficient %d", i)
				if i == len(s.withTop)-1 {
					where = "the body"
				}
				if z := s.withTop[i] / math.Exp2(32) / math.Sqrt(s.mm/12); math.Abs(z) > 7.5 {
					c.Fail(kind, "%s goes with the message (%.1f standard errors over %d encryptions)", where, z, s.bodyN)
				}
				if z := s.withLow[i] / math.Sqrt(s.mm); math.Abs(z) > 7.5 {
					c.Fail(kind, "the lowest bit of %s goes with the message (%.1f standard errors over %d encryptions)", where, z, s.bodyN)
				}
			}
			if s.bodyN >= 3000 {
				chi, exp := 0.0, float64(s.bodyN)/256
				for _, v := range s.body {
					d := float64(v) - exp
					chi += d * d / exp
				}
				if z := (chi - 255) / math.Sqrt(510); z > 8 {
					c.Fail(kind, "bodies of encryptions are not uniform: chi square %.1f over %d values", chi, s.bodyN)
				}
			}
			c.Count("ciphertexts_compared_with_their_message", s.bodyN)
		}
		c.Count("masks of "+kind, s.cts)
		c.Count("mask_coefficients", s.n)
	}
	for name, s := range q.kst {
		kind := "secret keys " + name
		f := float64(s.keys)
		for l, ones := range s.ones {
			sum := 0.0
			for i, v := range ones {
				sum += float64(v)
				if z := (float64(v) - f/2) / math.Sqrt(f/4); f > 200 && math.Abs(z) > 7 {
					c.Fail(kind, "bit %d of level %d is 1 in %d of %d keys", i, l, v, s.keys)
				}
			}
			if t := f * float64(len(ones)); math.Abs(sum-t/2) > 6.5*math.Sqrt(t/4) {
				c.Fail(kind, "%.0f of %.0f bits of level %d are 1", sum, t, l)
			}
			if t := float64(s.pairs[l]); math.Abs(float64(s.equal[l])-t/2) > 6.5*math.Sqrt(t/4) {
				c.Fail(kind, "%d of %d neighbouring bits of level %d are equal", s.equal[l], s.pairs[l], l)
			}
			chi, exp := 0.0, float64(s.patterns[l])/256
			for _, v := range s.pattern[l] {
				d := float64(v) - exp
				chi += d * d / exp
			}
			if z := (chi - 255) / math.Sqrt(510); math.Abs(z) > 8 {
				c.Fail(kind, "groups of eight bits of level %d are not uniform: chi square %.1f over %d groups", l, chi, s.patterns[l])
			}
		}
		if t := float64(s.crossN); math.Abs(float64(s.cross)-t/2) > 6.5*math.Sqrt(t/4) {
			c.Fail(kind, "%d of %d bits are equal in the small and the large key", s.cross, s.crossN)
		}
		c.Count("secret_keys_in_statistics", s.keys)
	}
	lsb := math.Exp2(-32)
	for kind, s := range q.nst {
		c.Count("noise values of "+kind, int64(s.n))
		if s.sd == 0 {
			if s.sq > s.n*lsb*lsb {
				c.Fail(kind, "noise 0 was requested, found root mean square %g", math.Sqrt(s.sq/s.n))
			}
			continue
		}
		rms, mean := math.Sqrt(s.sq/s.n), s.sum/s.n
		if s.sd < lsb/2 {
			// the requested noise is below the resolution of the torus
			if rms > 8*lsb {
				c.Fail(kind, "noise has root mean square %g, requested %g", rms, s.sd)
			}
			c.Finding("lv1-noise-below-resolution "+kind[strings.LastIndex(kind, " ")+1:], "%s: requested deviation %g, all %.0f noise values have magnitude at most %g", kind, s.sd, s.n, 8*lsb)
			continue
		}
		tol := 0.02 + 7/math.Sqrt(2*s.n) + lsb/s.sd
		if rms < s.sd*(1-tol) || rms > s.sd*(1+tol) {
			c.Fail(kind, "noise has root mean square %g over %.0f values, requested %g", rms, s.n, s.sd)
		}
		if math.Abs(mean) > 6.5*s.sd/math.Sqrt(s.n)+lsb {
			c.Fail(kind, "noise has mean %g over %.0f values (deviation %g)", mean, s.n, s.sd)
		}
		if s.sd > 50*lsb {
			for i, want := range []float64{0.317311, 0.0455003, 0.0026998} {
				got := s.over[i] / s.n
				if math.Abs(got-want) > 6.5*math.Sqrt(want/s.n)+0.02*want+3*lsb/s.sd {
					c.Fail(kind, "%.4g of the noise values lie beyond %d deviations, want %.4g (n=%.0f)", got, i+1, want, s.n)
				}
			}
			if z := (s.pos + s.zeros/2 - s.n/2) / math.Sqrt(s.n/4); math.Abs(z) > 6.5 {
				c.Fail(kind, "%.0f of %.0f noise values are positive", s.pos, s.n)
			}
		}
		if z := s.cross / (s.sd * s.sd * math.Sqrt(s.nx)); s.nx > 100 && math.Abs(z) > 6.5*(1+tol) {
			c.Fail(kind, "successive noise values are correlated (%.1f standard errors)", z)
		}
		if len(s.seq) > 1000 {
			if l, z := orc.WorstLag(s.seq, 1<<14); math.Abs(z) > 7.5*(1+tol) {
				c.Fail(kind, "noise values %d apart are correlated (%.1f standard errors)", l, z)
			}
			c.Count("noise_sequences_compared_with_themselves", 1)
		}
		if z := s.maskCross / (s.sd * math.Sqrt(s.mskN/12)); s.mskN > 100 && math.Abs(z) > 6.5*(1+tol) {
			c.Fail(kind, "noise is correlated with the mask (%.1f standard errors)", z)
		}
	}
}

func (q *rec) lwe(kind string, ct []T, s []T, mu T, sd float64) {
	n := len(s)
	e := orc.Err(orc.Phase(ct, s), mu)
	in := math.NaN()
	if sd > 50*math.Exp2(-32) {
		in = e / sd
	}
	q.full(kind, ct[:n], ct[n], mu, in, true)
	q.noise(kind, sd, e, ct[0])
}

func (q *rec) ring(kind string, ct *trlwe.TRLWELv1, ph []T, want func(i int) T, sd float64) {
	q.mask(kind, ct.A)
	for i := range ph {
		q.noise(kind, sd, orc.Err(ph[i], want(i)), ct.A[i])
	}
}

func (q *rec) secret(sk *key.SecretKey) {
	var local []uint64
	pack := func(v []T) {
		var lo, hi uint64
		for i, b := range v {
			hi = (hi<<1 | lo>>63) & 0xffffffff
			lo = lo<<1 | uint64(b&1)
			if i >= 95 {
				if h := mix(lo, hi, 77); h%32 == 0 {
					local = append(local, h)
				}
			}
		}
	}
	pack(sk.KeyLv0)
	pack(sk.KeyLv1)
	q.Lock()
	name := orc.Current().Name
	s := q.kst[name]
	if s == nil {
		s = &kstat{ones: [2][]int64{make([]int64, len(sk.KeyLv0)), make([]int64, len(sk.KeyLv1))}}
		q.kst[name] = s
	}
	s.keys++
	for l, v := range [][]T{sk.KeyLv0, sk.KeyLv1} {
		for i, b := range v {
			s.ones[l][i] += int64(b & 1)
			if i > 0 {
				s.pairs[l]++
				s.equal[l] += int64(1 ^ (b^v[i-1])&1)
			}
		}
		for i := 0; i+8 <= len(v); i += 8 {
			x := 0
			for _, b := range v[i : i+8] {
				x = x<<1 | int(b&1)
			}
			s.pattern[l][x]++
			s.patterns[l]++
		}
	}
	for i := range min(len(sk.KeyLv0), len(sk.KeyLv1)) {
		s.crossN++
		s.cross += int64(1 ^ (sk.KeyLv0[i]^sk.KeyLv1[i])&1)
	}
	q.record("secret key", local, orc.HashT(sk.KeyLv0)^orc.HashT(sk.KeyLv1))
	q.Unlock()
}

func run(c *vk.C) {
	q := newRec(c)
	r := c.Rand("c21")
	for i := 0; i < c.Pick(6000, 60000); i++ {
		if i%2000 == 0 {
			orc.Profiles[(i/2000+c.Shard)%len(orc.Profiles)].Use()
		}
		q.secret(key.NewSecretKey())
	}
	c.Count("secret_keys", int64(c.Pick(6000, 60000)))

	// relations between the bits of two keys made in a row, or of two masks
	for _, pi := range []int{c.Shard % len(orc.Profiles), (c.Shard + 4) % len(orc.Profiles)} {
		p := orc.Profiles[pi]
		p.Use()
		sk := key.NewSecretKey()
		g := orc.NewGF2(len(sk.KeyLv0) + len(sk.KeyLv1) + 1)
		for !g.Done() {
			k := key.NewSecretKey()
			all := append(append(append([]T{}, k.KeyLv0...), k.KeyLv1...), 1)
			g.Add(func(i int) bool { return all[i] == 1 })
		}
		if g.Deficient() {
			c.Fail("secret keys "+p.Name, "the bits of a key satisfy a linear relation in all %d keys", g.N)
		}
		n := len(sk.KeyLv0)
		for _, bit := range planes {
			g := orc.NewGF2(2*n + 1)
			for !g.Done() {
				a := tlwe.NewTLWELv0().EncryptBool(true, 1e-6, sk.KeyLv0)
				b := tlwe.NewTLWELv0().EncryptBool(false, 1e-6, sk.KeyLv0)
				g.Add(func(i int) bool {
					switch {
					case i < n:
						return a.P[i]>>bit&1 == 1
					case i < 2*n:
						return b.P[i-n]>>bit&1 == 1
					}
					return true
				})
			}
			if g.Deficient() {
				c.Fail("EncryptBool "+p.Name, "bits %d of the masks of two encryptions in a row satisfy a linear relation in all %d pairs", bit, g.N)
			}
		}
		c.Count("relation_searches_over_pairs", int64(1+len(planes)))
		rings(c, p, sk)
	}

	// the bulk: plain encryptions from several goroutines at once
	p := orc.Profiles[c.Shard%4]
	p.Use()
	sk := key.NewSecretKey()
	a0 := params.GetTLWELv0().ALPHA
	c.Par("bulk encryption", 4, c.Pick(100000, 1000000), func(_, i int) {
		b := i%2 == 0
		ct := tlwe.NewTLWELv0().EncryptBool(b, a0, sk.KeyLv0)
		q.lwe("EncryptBool "+p.Name, ct.P, sk.KeyLv0, orc.BoolMu(b), a0)
	})

	// every kind of ciphertext, on every profile
	for pi, p := range orc.Profiles {
		if pi%procs != c.Shard && c.Quick() && (pi+4)%procs != c.Shard {
			continue
		}
		kindsOf(c, q, p)
	}
	// whole generated keys
	for _, g := range []struct {
		shard int
		name  string
	}{{0, "128"}, {1, "110"}, {2, "80"}, {3, "uint1"}, {4, "uint2"}, {5, "uint3"}} {
		if g.shard == c.Shard {
			generated(c, q, orc.ByName(g.name))
		}
	}
	_ = r
	q.judge()
	share(c, q)
}

// rings looks at many ring encryptions under one key: linear relations between the
// bits of the mask and of the body, and noise of one coefficient that goes with that
// of another, for every pair of coefficients.
func rings(c *vk.C, p orc.Profile, sk *key.SecretKey) {
	n := params.GetTRGSWLv1().N
	pe := poly.NewEvaluator(n)
	kind := "TRLWELv1 masks and noise " + p.Name
	gs := map[int]*orc.GF2{}
	for _, bit := range planes {
		gs[bit] = orc.NewGF2(n + 1)
	}
	const sd = 1e-4
	const judged = 192
	pos, big := make([][judged / 64]uint64, n), make([][judged / 64]uint64, n)
	zero := make([]float64, n)
	for k := 0; k < judged || !gs[0].Done(); k++ {
		ct := trlwe.NewTRLWELv1()
		switch k % 3 {
		case 0:
			ct.EncryptBool(make([]bool, n), sd, sk.KeyLv1, pe)
		case 1:
			ct.EncryptF64(zero, sd, sk.KeyLv1, pe)
		default: // the first row of a gadget ciphertext of zero
			if k < judged {
				ct = trgsw.NewTRGSWLv1().EncryptTorus(0, sd, sk.KeyLv1, pe).TRLWE[k/3%(2*params.GetTRGSWLv1().L)]
			} else {
				ct.EncryptF64(zero, sd, sk.KeyLv1, pe)
			}
		}
		for bit, g := range gs {
			g.Add(func(i int) bool { return i == n || ct.A[i]>>bit&1 == 1 })
		}
		c.SeenHash(orc.HashT(ct.A))
		if k < judged {
			ph := orc.PhaseRing(ct, sk.KeyLv1)
			for i, x := range ph {
				mu := T(0)
				if k%3 == 0 {
					mu = orc.BoolMu(false)
				}
				e := orc.Err(x, mu)
				if e > 0 {
					pos[i][k/64] |= 1 << (k % 64)
				}
				if math.Abs(e) > 0.6745*sd {
					big[i][k/64] |= 1 << (k % 64)
				}
			}
		}
	}
	for bit, g := range gs {
		if g.Deficient() {
			c.Fail(kind, "bits %d of the mask coefficients satisfy a linear relation in all %d encryptions", bit, g.N)
		}
	}
	for i := range pos {
		for j := i + 1; j < n; j++ {
			for what, v := range [][][judged / 64]uint64{pos, big} {
				differ := 0
				for w := range v[i] {
					differ += bits.OnesCount64(v[i][w] ^ v[j][w])
				}
				if z := (judged - 2*float64(differ)) / math.Sqrt(judged); math.Abs(z) > 9 {
					c.Fail(kind, "the %s of the noise of coefficients %d and %d go together: they differ in %d of %d encryptions", []string{"signs", "magnitudes"}[what], i, j, differ, judged)
				}
			}
		}
	}
	c.Count("pairs_of_ring_coefficients_with_independent_noise", int64(n)*int64(n-1)/2)
	c.Count("ring_mask_bit_planes_free_of_relations", int64(len(planes)))
}

func kindsOf(c *vk.C, q *rec, p orc.Profile) {
	p.Use()
	r := c.Rand("kinds %s", p.Name)
	sk := key.NewSecretKey()
	s0, s1 := sk.KeyLv0, sk.KeyLv1
	n := params.GetTRGSWLv1().N
	pe := poly.NewEvaluator(n)
	a0, a1 := params.GetTLWELv0().ALPHA, params.GetTRLWELv1().ALPHA
	reuse, reuse1, reuseR := tlwe.NewTLWELv0(), tlwe.NewTLWELv1(), trlwe.NewTRLWELv1()
	cnt := c.Pick(600, 6000)
	for i := 0; i < cnt; i++ {
		mu := r.Float64()
		// the same value again and again: only mask and noise may vary
		if i%2 == 0 {
			mu = 0.25
		}
		ct := tlwe.NewTLWELv0().EncryptF64(mu, a0, s0)
		q.lwe("EncryptF64 "+p.Name, ct.P, s0, orc.Enc(mu), a0)
		reuse.EncryptF64(mu, a0, s0)
		q.lwe("EncryptF64 "+p.Name, reuse.P, s0, orc.Enc(mu), a0)
		reuse.EncryptF64(mu, 1e-3, s0)
		q.lwe("EncryptF64 requested 1e-3 "+p.Name, reuse.P, s0, orc.Enc(mu), 1e-3)
		reuse.EncryptF64(mu, 0, s0)
		q.lwe("EncryptF64 requested 0 "+p.Name, reuse.P, s0, orc.Enc(mu), 0)
		x := r.Intn(p.M)
		q.lwe("EncryptLWEMessage "+p.Name, tlwe.NewTLWELv0().EncryptLWEMessage(x, p.M, a0, s0).P, s0, orc.MsgMu(x, p.M), a0)
		q.lwe("TLWELv1.EncryptF64 "+p.Name, tlwe.NewTLWELv1().EncryptF64(mu, a0, s1).P, s1, orc.Enc(mu), a0)
		reuse1.EncryptBool(i%3 == 0, a1, s1)
		q.lwe("TLWELv1.EncryptBool "+p.Name, reuse1.P, s1, orc.BoolMu(i%3 == 0), a1)
	}
	for i := 0; i < cnt/20; i++ {
		var bits []bool
		switch i % 6 {
		case 0:
			bits = bitutils.U16ToBits(0x5a5a)
		case 1: // one value all through
			bits = make([]bool, []int{1, 8, 31, 32, 33, 64, 100, 257}[i/6%8])
		case 2:
			bits = bitutils.U64ToBits(uint64(r.Intn(1000)))
		case 3:
			bits = bitutils.U32ToBits(0xffffffff)
		case 4:
			bits = bitutils.U8ToBits(uint8(i))
		default:
			bits = make([]bool, r.Intn(140))
			for k := range bits {
				bits[k] = k/7%2 == 0
			}
		}
		for k, ct := range bitutils.EncryptBits(bits, a0, s0) {
			q.lwe("EncryptBits "+p.Name, ct.P, s0, orc.BoolMu(bits[k]), a0)
		}
	}
	f := make([]float64, n)
	bs := make([]bool, n)
	for i := 0; i < cnt/12; i++ {
		for k := range f {
			f[k] = 0.125
			if i%2 == 0 {
				f[k] = r.Float64() - 0.5
			}
			bs[k] = (k+i)%3 == 0
		}
		for _, alpha := range []float64{a1, 1e-4} {
			name := "profile noise"
			if alpha != a1 {
				name = "requested 1e-4"
			}
			ct := reuseR.EncryptF64(f, alpha, s1, pe)
			q.ring("TRLWELv1.EncryptF64 "+name+" "+p.Name, ct, orc.PhaseRing(ct, s1), func(k int) T { return orc.Enc(f[k]) }, alpha)
		}
		ct := trlwe.NewTRLWELv1().EncryptBool(bs, a1, s1, pe)
		q.ring("TRLWELv1.EncryptBool "+p.Name, ct, orc.PhaseRing(ct, s1), func(k int) T { return orc.BoolMu(bs[k]) }, a1)
	}
	// gadget ciphertexts: rows must not share masks
	// gadget ciphertexts: rows must not share masks
	tg := params.GetTRGSWLv1()
	for i := 0; i < cnt/50; i++ {
		mu := []T{0, 1, T(r.Intn(8)), T(r.Uint32())}[i%4]
		g := trgsw.NewTRGSWLv1().EncryptTorus(mu, 1e-4, s1, pe)
		for k, row := range g.TRLWE {
			// the gadget multiple of mu stands in the mask or in the body
			w := mu << (32 - (k%tg.L+1)*int(tg.BGBIT))
			row.B[0] -= w * T(k/tg.L)
			row.A[0] -= w * T(1-k/tg.L)
			q.ring("TRGSWLv1.EncryptTorus "+p.Name, row, orc.PhaseRing(row, s1), func(int) T { return 0 }, 1e-4)
		}
	}
	// public keys and what is made with them
	pk := proxyreenc.NewPublicKeyLv0WithParams(s0, 64, a0)
	for _, e := range pk.Encryptions {
		q.lwe("public key "+p.Name, e.P, s0, 0, a0)
	}
	for i := 0; i < cnt/4; i++ {
		// freshness only: its noise is judged by C23
		q.combined("public-key ciphertext "+p.Name, pk.EncryptBool(i%2 == 0, a0).P[:len(s0)])
	}
	to := key.NewSecretKey().KeyLv0
	topk := proxyreenc.NewPublicKeyLv0WithParams(to, 64, a0)
	sets := [][2]int{{1, 2}, {2, 1}, {3, 1}}
	switch p.Name {
	case "80": // the default, and many levels
		sets = append(sets, [2]int{tg.BASEBIT, tg.IKS_T}, [2]int{1, 16})
	case "uint2":
		sets = append(sets, [2]int{4, 3})
	default:
		sets = append(sets, [2]int{1, 5})
	}
	for _, bt := range sets {
		base := 1 << bt[0]
		rk := proxyreenc.NewProxyReencryptionKeySymmetricWithParams(s0, to, a0, bt[0], bt[1])
		ak := proxyreenc.NewProxyReencryptionKeyAsymmetricWithParams(s0, topk, a0, bt[0], bt[1])
		for i, e := range rk.KeyEncryptions {
			if d := i % base; d != 0 {
				lev := i / base % bt[1]
				q.lwe("re-encryption key "+p.Name, e.P, to, T(d)*s0[i/base/bt[1]]<<(32-(lev+1)*bt[0]), a0)
				if i/base/bt[1] < 150 {
					q.combined("asymmetric re-encryption key "+p.Name, ak.KeyEncryptions[i].P[:len(s0)])
				}
			}
		}
	}
	if p.Name == "80" || p.Name == "uint2" {
		// default settings
		defpk := proxyreenc.NewPublicKeyLv0(s0)
		for _, e := range defpk.Encryptions {
			q.lwe("default public key "+p.Name, e.P, s0, 0, a0)
		}
		if p.Name == "80" {
			ak := proxyreenc.NewProxyReencryptionKeyAsymmetric(to, defpk)
			for i, e := range ak.KeyEncryptions {
				if i%(1<<tg.BASEBIT) != 0 {
					q.combined("default asymmetric re-encryption key "+p.Name, e.P[:len(s0)])
				}
			}
		}
	}
}

// generated records every mask of a cloud key.
func generated(c *vk.C, q *rec, p orc.Profile) {
	p.Use()
	for k := 0; k < c.Pick(1, 4); k++ {
		sk := key.NewSecretKey()
		ck := cloudkey.NewCloudKey(sk)
		base := 1 << params.GetTRGSWLv1().BASEBIT
		c.Par("switching key", 8, len(ck.KeySwitchingKey), func(_, i int) {
			if i%base != 0 {
				q.mask("switching key "+p.Name, ck.KeySwitchingKey[i].P[:len(sk.KeyLv0)])
			}
		})
		pe := poly.NewEvaluator(params.GetTRGSWLv1().N)
		for _, e := range ck.BootstrappingKey {
			for _, row := range e.TRLWEFFT {
				q.mask("bootstrapping key "+p.Name, pe.ToPoly(row.A).Coeffs)
			}
		}
	}
}

// share looks for repeated stretches within this process, writes the record
// where the first process finds it and, in the first process, merges them all.
func share(c *vk.C, q *rec) {
	find(c, q.wins, func(k uint32) string { return q.kinds[k] })
	dir := os.TempDir()
	tmp := filepath.Join(dir, fmt.Sprintf("wins-%d.tmp", c.Shard))
	f, err := os.Create(tmp)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	var b [16]byte
	for _, x := range q.wins {
		binary.LittleEndian.PutUint64(b[:], x.h)
		binary.LittleEndian.PutUint32(b[8:], x.id)
		binary.LittleEndian.PutUint32(b[12:], x.kind)
		w.Write(b[:])
	}
	if w.Flush() != nil || f.Close() != nil || os.Rename(tmp, filepath.Join(dir, fmt.Sprintf("wins-%d", c.Shard))) != nil {
		panic("cannot write the record")
	}
	c.Count("stretches_compared", int64(len(q.wins)))
	if c.Shard != 0 {
		return
	}
	var all []win
	for s := 0; s < c.NShards; s++ {
		var data []byte
		for {
			if data, err = os.ReadFile(filepath.Join(dir, fmt.Sprintf("wins-%d", s))); err == nil {
				break
			}
			time.Sleep(100 * time.Millisecond) // the watchdog ends a hopeless wait
		}
		for i := 0; i+16 <= len(data); i += 16 {
			all = append(all, win{binary.LittleEndian.Uint64(data[i:]), binary.LittleEndian.Uint32(data[i+8:]), binary.LittleEndian.Uint32(data[i+12:])})
		}
	}
	find(c, all, func(k uint32) string { return fmt.Sprintf("kind %d", k) })
	c.Count("stretches_compared_across_processes", int64(len(all)))
}

func find(c *vk.C, w []win, name func(uint32) string) {
	sort.Slice(w, func(i, j int) bool { return w[i].h < w[j].h })
	for i := 1; i < len(w); i++ {
		if w[i].h == w[i-1].h {
			a, b := w[i-1], w[i]
			where := "of two different ciphertexts or keys"
			if a.id == b.id {
				where = "within one ciphertext or key"
			} else if a.id>>28 != b.id>>28 {
				where = "of ciphertexts or keys of two processes"
			}
			c.Fail("repeated stretch", "the same random stretch occurs twice %s (%s number %d of process %d, %s number %d of process %d)", where,
				name(a.kind), a.id&(1<<28-1), a.id>>28, name(b.kind), b.id&(1<<28-1), b.id>>28)
		}
	}
}
