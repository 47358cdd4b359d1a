package sched

import (
	"reflect"
	"sort"
	"unsafe"
)

// Keys returns the keys of m in a deterministic order.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	if len(m) == 0 {
		return nil
	}
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) < 2 {
		return ks
	}
	fp := make([]fprint, len(ks))
	for i := range ks {
		fingerprint(&fp[i], reflect.TypeOf(&ks[i]).Elem(), unsafe.Pointer(&ks[i]), 0)
	}
	s := &keySort[K]{ks, fp, mapDesc()}
	sort.Stable(s)
	return ks
}

// mapDesc decides the direction of one iteration.
//
//go:norace
func mapDesc() bool {
	if cur == nil {
		return false
	}
	cur.maps++
	return cur.MapOrder == 1 || cur.MapOrder == 2 && cur.maps%2 == 0
}

// KV returns zero values of the key and element type of m.
func KV[M ~map[K]V, K comparable, V any](m M) (k K, v V) { return }

type fprint struct {
	s string
	n [6]uint64
	c int
}

type keySort[K comparable] struct {
	ks   []K
	fp   []fprint
	desc bool
}

func (s *keySort[K]) Len() int { return len(s.ks) }
func (s *keySort[K]) Swap(i, j int) {
	s.ks[i], s.ks[j] = s.ks[j], s.ks[i]
	s.fp[i], s.fp[j] = s.fp[j], s.fp[i]
}
func (s *keySort[K]) Less(i, j int) bool {
	if s.desc {
		i, j = j, i
	}
	a, b := &s.fp[i], &s.fp[j]
	for k := range a.n {
		if a.n[k] != b.n[k] {
			return a.n[k] < b.n[k]
		}
	}
	return a.s < b.s
}

// fingerprint reads scalar content without race instrumentation.
//
//go:norace
func fingerprint(f *fprint, t reflect.Type, p unsafe.Pointer, depth int) {
	if p == nil || depth > 6 {
		return
	}
	var n uint64
	switch t.Kind() {
	case reflect.String:
		if len(f.s) < 256 {
			f.s += *(*string)(p) + "\x00"
		}
		return
	case reflect.Int, reflect.Int64, reflect.Uint, reflect.Uint64, reflect.Uintptr, reflect.Float64:
		n = *(*uint64)(p)
		if k := t.Kind(); k == reflect.Int || k == reflect.Int64 {
			n ^= 1 << 63
		}
	case reflect.Int32, reflect.Uint32, reflect.Float32:
		n = uint64(*(*uint32)(p))
	case reflect.Int16, reflect.Uint16:
		n = uint64(*(*uint16)(p))
	case reflect.Int8, reflect.Uint8, reflect.Bool:
		n = uint64(*(*uint8)(p))
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			fl := t.Field(i)
			fingerprint(f, fl.Type, unsafe.Add(p, fl.Offset), depth+1)
		}
		return
	case reflect.Ptr:
		if depth > 2 || t.Elem().PkgPath() != "" && !walkable(t.Elem()) {
			return
		}
		fingerprint(f, t.Elem(), *(*unsafe.Pointer)(p), depth+1)
		return
	case reflect.Interface:
		if t.NumMethod() == 0 {
			v := *(*any)(p)
			if v != nil {
				vt := reflect.TypeOf(v)
				if len(f.s) < 256 {
					f.s += vt.String() + "\x00"
				}
				w := (*[2]unsafe.Pointer)(p)[1]
				if vt.Kind() == reflect.Ptr {
					pp := w
					fingerprint(f, vt, unsafe.Pointer(&pp), depth+1)
				} else if vt.Kind() != reflect.Map && vt.Kind() != reflect.Chan && vt.Kind() != reflect.Func {
					fingerprint(f, vt, w, depth+1)
				}
			}
		}
		return
	default:
		return
	}
	if f.c < len(f.n) {
		f.n[f.c] = n
		f.c++
	}
}
