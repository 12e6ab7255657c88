package main

import (
	"fmt"
	"math"
	"math/rand"
	"syscall"
	"unsafe"

	"verif/orc"
)

// placement says where the buffers of one run lie.
type placement int

const (
	heap      placement = iota // ordinary allocations (the reference; redzones by AddressSanitizer)
	endGuard                   // last byte right before an inaccessible page
	headGuard                  // first byte right after an inaccessible page
	embedA                     // inside a larger array of one canary pattern
	embedB                     // the same with another pattern and another alignment
	nPlace
)

func (p placement) String() string {
	return [...]string{"ordinary", "before a guard page", "after a guard page", "inside an array (pattern A)", "inside an array (pattern B)"}[p]
}

const page = 4096

type embedT struct {
	all      []T
	off, len int
	pat      T
}
type embedF struct {
	all      []float64
	off, len int
	pat      float64
}

// arena hands out the buffers of one run and checks them afterwards.
type arena struct {
	p    placement
	ts   [][]T
	fs   [][]float64
	et   []embedT
	ef   []embedF
	maps [][]byte
	n    int
}

// guarded returns size bytes that touch an inaccessible page.
func (a *arena) guarded(size int) unsafe.Pointer {
	data := (size + page - 1) / page * page
	m, err := syscall.Mmap(-1, 0, data+2*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic("mmap: " + err.Error())
	}
	if err := syscall.Mprotect(m[:page], syscall.PROT_NONE); err != nil {
		panic("mprotect: " + err.Error())
	}
	if err := syscall.Mprotect(m[page+data:], syscall.PROT_NONE); err != nil {
		panic("mprotect: " + err.Error())
	}
	a.maps = append(a.maps, m)
	if a.p == endGuard {
		return unsafe.Pointer(&m[page+data-size])
	}
	return unsafe.Pointer(&m[page])
}

// margin is the number of canaries on each side: odd ones give odd alignments.
func (a *arena) margin() int {
	a.n++
	return []int{64, 33, 17, 48, 40, 72}[a.n%6]
}

func (a *arena) T(n int) []T {
	var v []T
	switch a.p {
	case heap:
		v = make([]T, n)
	case endGuard, headGuard:
		v = unsafe.Slice((*T)(a.guarded(n*4)), n)
	default:
		m := a.margin()
		pat := T(0x5a5a5a5a)
		if a.p == embedB {
			pat, m = 0xc3c3c3c3, m+3
		}
		all := make([]T, n+2*m)
		for i := range all {
			all[i] = pat
		}
		a.et = append(a.et, embedT{all, m, n, pat})
		v = all[m : m+n] // its capacity reaches into the canaries
	}
	a.ts = append(a.ts, v)
	return v
}

func (a *arena) F(n int) []float64 {
	var v []float64
	switch a.p {
	case heap:
		v = make([]float64, n)
	case endGuard, headGuard:
		v = unsafe.Slice((*float64)(a.guarded(n*8)), n)
	default:
		m := a.margin()
		pat := 1.25e300
		if a.p == embedB {
			pat, m = -7.5e-11, m+3
		}
		all := make([]float64, n+2*m)
		for i := range all {
			all[i] = pat
		}
		a.ef = append(a.ef, embedF{all, m, n, pat})
		v = all[m : m+n]
	}
	a.fs = append(a.fs, v)
	return v
}

// RT is a buffer of random torus values, CT a copy of v, RF random floats.
func (a *arena) RT(r *rand.Rand, n int) []T {
	v := a.T(n)
	orc.Fill(r, v)
	return v
}
func (a *arena) CT(src []T) []T {
	v := a.T(len(src))
	copy(v, src)
	return v
}
func (a *arena) CF(src []float64) []float64 {
	v := a.F(len(src))
	copy(v, src)
	return v
}
func (a *arena) RF(r *rand.Rand, n int) []float64 {
	v := a.F(n)
	for i := range v {
		v[i] = float64(int32(r.Uint32()))
	}
	return v
}

// canaries returns what is wrong around the embedded buffers.
func (a *arena) canaries() (bad string, looked int64) {
	for k, e := range a.et {
		for i, x := range e.all {
			if i >= e.off && i < e.off+e.len {
				continue
			}
			looked++
			if x != e.pat {
				return fmt.Sprintf("torus buffer %d: the element at %d, outside the buffer of length %d, changed from %#x to %#x", k, i-e.off, e.len, uint32(e.pat), uint32(x)), looked
			}
		}
	}
	for k, e := range a.ef {
		for i, x := range e.all {
			if i >= e.off && i < e.off+e.len {
				continue
			}
			looked++
			if math.Float64bits(x) != math.Float64bits(e.pat) {
				return fmt.Sprintf("Fourier buffer %d: the element at %d, outside the buffer of length %d, changed from %g to %g", k, i-e.off, e.len, e.pat, x), looked
			}
		}
	}
	return "", looked
}

// digest hashes the contents of every buffer.
func (a *arena) digest() []uint64 {
	var d []uint64
	for _, v := range a.ts {
		d = append(d, orc.HashT(v))
	}
	for _, v := range a.fs {
		d = append(d, orc.HashF(v))
	}
	return d
}

func (a *arena) free() {
	for _, m := range a.maps {
		syscall.Munmap(m)
	}
	*a = arena{p: a.p}
}
