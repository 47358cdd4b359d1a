package sched

import (
	"reflect"
	"strings"
	"unsafe"
)

// ---- package-level state of the code under test ----
//
// Every package-level variable of the code under test is registered by a
// generated file. Before the first session the memory reachable from those
// variables (through module types, unnamed types and basic types) is recorded;
// it is written back in place before every later session, so that executions
// do not influence each other.

var globals []reflect.Value // addressable values
var globalsTaken bool
var restores []func()

const modulePrefix = "github.com/spacemonkeygo/monkit/v3"

func Global(ptr any) {
	globals = append(globals, reflect.ValueOf(ptr).Elem())
}

func walkable(t reflect.Type) bool {
	p := t.PkgPath()
	return p == "" || strings.HasPrefix(p, modulePrefix)
}

type seenKey struct {
	p unsafe.Pointer
	t reflect.Type
}

func snapshotGlobals() {
	seen := map[seenKey]bool{}
	for _, g := range globals {
		snapAddr(g, seen, 0)
	}
}

// access makes an addressable value from unexported fields usable.
func access(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

// snapAddr records an addressable object and everything reachable from it.
func snapAddr(v reflect.Value, seen map[seenKey]bool, depth int) {
	v = access(v)
	k := seenKey{unsafe.Pointer(v.UnsafeAddr()), v.Type()}
	if seen[k] || v.Type().Size() == 0 {
		return
	}
	seen[k] = true
	cp := reflect.New(v.Type()).Elem()
	cp.Set(v)
	restores = append(restores, func() { v.Set(cp) })
	follow(v, seen, depth+1)
}

func follow(v reflect.Value, seen map[seenKey]bool, depth int) {
	if depth > 30 {
		return
	}
	if v.CanAddr() {
		v = access(v)
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || !walkable(v.Type().Elem()) || v.Type().Elem().Kind() == reflect.Func {
			return
		}
		if v.Type().Elem().Name() == "" && v.Type().Elem().Kind() != reflect.Struct && v.Type().Elem().Kind() != reflect.Map && v.Type().Elem().Kind() != reflect.Slice {
			return
		}
		snapAddr(v.Elem(), seen, depth)
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		follow(v.Elem(), seen, depth+1)
	case reflect.Struct:
		if !walkable(v.Type()) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanAddr() {
				// inside an interface: only pointers and maps matter
				if !f.CanInterface() {
					continue
				}
			}
			follow(f, seen, depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len() && i < 64; i++ {
			follow(v.Index(i), seen, depth+1)
		}
	case reflect.Slice:
		if v.IsNil() || !walkable(v.Type().Elem()) || v.Len() > 4096 || v.Len() == 0 {
			return
		}
		k := seenKey{unsafe.Pointer(v.Pointer()), v.Type()}
		if seen[k] {
			return
		}
		seen[k] = true
		cp := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		reflect.Copy(cp, v)
		w := v.Slice3(0, v.Len(), v.Len())
		restores = append(restores, func() { reflect.Copy(w, cp) })
		for i := 0; i < v.Len(); i++ {
			follow(v.Index(i), seen, depth+1)
		}
	case reflect.Map:
		if v.IsNil() || v.Len() > 4096 {
			return
		}
		k := seenKey{unsafe.Pointer(v.Pointer()), v.Type()}
		if seen[k] {
			return
		}
		seen[k] = true
		m := reflect.ValueOf(v.Interface())
		var ks, vs []reflect.Value
		it := m.MapRange()
		for it.Next() {
			ks = append(ks, it.Key())
			vs = append(vs, it.Value())
		}
		restores = append(restores, func() {
			for _, k := range m.MapKeys() {
				m.SetMapIndex(k, reflect.Value{})
			}
			for i := range ks {
				m.SetMapIndex(ks[i], vs[i])
			}
		})
		for i := range vs {
			follow(vs[i], seen, depth+1)
			follow(ks[i], seen, depth+1)
		}
	}
}

func resetGlobals() {
	if !globalsTaken {
		globalsTaken = true
		snapshotGlobals()
		return
	}
	for _, f := range restores {
		f()
	}
}
