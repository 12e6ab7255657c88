package orc

import (
	"hash/fnv"
	"reflect"
	"sort"
	"unsafe"
)

// Range is a stretch of memory an object reaches.
type Range struct {
	Lo, Hi uintptr
	Path   string
}

// Reach lists the memory an object reaches through pointers, slices, arrays,
// interfaces and maps (the values of maps, not their tables).
func Reach(x any) []Range {
	type at struct {
		p uintptr
		t reflect.Type
	}
	seen := map[at]bool{}
	var out []Range
	var walk func(v reflect.Value, path string)
	add := func(lo, size uintptr, path string) {
		if size > 0 && lo != 0 {
			out = append(out, Range{lo, lo + size, path})
		}
	}
	walk = func(v reflect.Value, path string) {
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() || seen[at{v.Pointer(), v.Type()}] {
				return
			}
			seen[at{v.Pointer(), v.Type()}] = true
			add(v.Pointer(), v.Type().Elem().Size(), path)
			walk(v.Elem(), path)
		case reflect.Slice:
			if v.Cap() == 0 {
				return
			}
			es := v.Type().Elem().Size()
			add(v.Pointer(), uintptr(v.Cap())*es, path)
			switch v.Type().Elem().Kind() {
			case reflect.Pointer, reflect.Slice, reflect.Struct, reflect.Array, reflect.Interface, reflect.Map:
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i), path+"[]")
				}
			}
		case reflect.Array:
			switch v.Type().Elem().Kind() {
			case reflect.Pointer, reflect.Slice, reflect.Struct, reflect.Array, reflect.Interface, reflect.Map:
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i), path+"[]")
				}
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), path+"."+v.Type().Field(i).Name)
			}
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), path)
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				walk(v.MapIndex(k), path+"{}")
			}
		}
	}
	walk(reflect.ValueOf(x), "")
	return out
}

// Overlap lists the memory both objects reach.
func Overlap(a, b []Range) []Range {
	sort.Slice(a, func(i, j int) bool { return a[i].Lo < a[j].Lo })
	var out []Range
	for _, y := range b {
		// ranges of a may nest: look at all that start before y ends
		for _, x := range a {
			if x.Lo >= y.Hi {
				break
			}
			if x.Hi > y.Lo {
				out = append(out, Range{max(x.Lo, y.Lo), min(x.Hi, y.Hi), x.Path + " / " + y.Path})
			}
		}
	}
	return out
}

// HashRange hashes the content of a stretch of memory that is still reachable.
// The stretch may span the fields of nested objects, which checkptr refuses.
//
//go:nocheckptr
func HashRange(r Range) uint64 {
	h := fnv.New64a()
	h.Write(unsafe.Slice((*byte)(*(*unsafe.Pointer)(unsafe.Pointer(&r.Lo))), int(r.Hi-r.Lo)))
	return h.Sum64()
}
