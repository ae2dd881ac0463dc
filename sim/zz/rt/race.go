package rt

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// Happens-before tracking. An unsynchronised pair of accesses to a built-in
// map, one of them a write, makes the Go runtime abort the process.

type access struct {
	task  int
	clock int
	site  int
	name  string
}

type shadow struct {
	ref   interface{} // keeps the map alive, so its address is not reused
	write access
	hasW  bool
	reads []access
}

func (s *Sim) tick(t *Task) {
	for len(t.vc) <= t.ID {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.ID]++
}

func (s *Sim) acquire(t *Task, vc []int) {
	for len(t.vc) < len(vc) {
		t.vc = append(t.vc, 0)
	}
	for i, c := range vc {
		if c > t.vc[i] {
			t.vc[i] = c
		}
	}
}

// VC is the clock of a synchronisation object
type VC struct{ c []int }

// Acquire orders the current task after the last Release
func (v *VC) Acquire() {
	if s := active; s != nil && s.race {
		s.acquire(s.cur, v.c)
	}
}

// Release orders later Acquires after the current task
func (v *VC) Release() {
	if s := active; s != nil && s.race {
		t := s.cur
		for len(v.c) < len(t.vc) {
			v.c = append(v.c, 0)
		}
		for i, c := range t.vc {
			if c > v.c[i] {
				v.c[i] = c
			}
		}
		s.tick(t)
	}
}

func (t *Task) sees(a access) bool {
	return a.task == t.ID || (a.task < len(t.vc) && t.vc[a.task] >= a.clock)
}

func (s *Sim) access(p uintptr, ref interface{}, site int, write bool) {
	t := s.cur
	if t.killed || s.aborted || p == 0 {
		return
	}
	if s.shadow == nil {
		s.shadow = map[uintptr]*shadow{}
	}
	sh, ok := s.shadow[p]
	if !ok {
		sh = &shadow{ref: ref}
		s.shadow[p] = sh
	}
	a := access{t.ID, t.vc[t.ID], site, t.Name}
	if sh.hasW && !t.sees(sh.write) {
		s.conflict(sh.write, a, true, write)
	}
	if write {
		for _, r := range sh.reads {
			if !t.sees(r) {
				s.conflict(r, a, false, true)
			}
		}
		sh.write, sh.hasW = a, true
		sh.reads = sh.reads[:0]
		return
	}
	for i := range sh.reads {
		if sh.reads[i].task == t.ID {
			sh.reads[i] = a
			return
		}
	}
	sh.reads = append(sh.reads, a)
}

func (s *Sim) conflict(a, b access, aw, bw bool) {
	kind := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	s.Fail("map-race", fmt.Sprintf("unsynchronised map access: %s at %s (%s) and %s at %s (%s)",
		kind(aw), SiteName(a.site), a.name, kind(bw), SiteName(b.site), b.name))
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) uintptr {
	return *(*uintptr)(unsafe.Pointer(&m))
}

// R marks a read of a map
func R[M ~map[K]V, K comparable, V any](m M, site int) M {
	reach(site)
	if s := active; s != nil && s.race {
		s.access(mapPtr[M, K, V](m), m, site, false)
	}
	return m
}

// W marks a write to a map
func W[M ~map[K]V, K comparable, V any](m M, site int) M {
	reach(site)
	if s := active; s != nil && s.race {
		s.access(mapPtr[M, K, V](m), m, site, true)
	}
	return m
}

func Zero[M ~map[K]V, K comparable, V any](m M) (k K, v V) { return }

// Keys returns the keys of a map in the order chosen by the simulator
func Keys[M ~map[K]V, K comparable, V any](m M, site int) []K {
	R[M, K, V](m, site)
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) < 2 {
		return keys
	}
	sortKeys(keys)
	perm := Perm(len(keys))
	res := make([]K, len(keys))
	for i, j := range perm {
		res[i] = keys[j]
	}
	return res
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
		return
	}
	v := reflect.ValueOf(keys)
	switch v.Type().Elem().Kind() {
	case reflect.String:
		sort.Slice(keys, func(i, j int) bool { return v.Index(i).String() < v.Index(j).String() })
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.Slice(keys, func(i, j int) bool { return v.Index(i).Int() < v.Index(j).Int() })
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		sort.Slice(keys, func(i, j int) bool { return v.Index(i).Uint() < v.Index(j).Uint() })
	default:
		names := make(map[K]string, len(keys))
		for _, k := range keys {
			names[k] = Describe(reflect.ValueOf(k), 3)
		}
		sort.SliceStable(keys, func(i, j int) bool { return names[keys[i]] < names[keys[j]] })
	}
}

// Describe prints a value without addresses
func Describe(v reflect.Value, depth int) string {
	if !v.IsValid() {
		return "nil"
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() || depth == 0 {
			return "nil"
		}
		return "&" + Describe(v.Elem(), depth-1)
	case reflect.Struct:
		res := v.Type().String() + "{"
		for i := 0; i < v.NumField(); i++ {
			res += Describe(v.Field(i), depth-1) + ","
		}
		return res + "}"
	case reflect.Slice, reflect.Array:
		res := "["
		for i := 0; i < v.Len(); i++ {
			res += Describe(v.Index(i), depth-1) + ","
		}
		return res + "]"
	case reflect.Map, reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return v.Type().String()
	case reflect.String:
		return v.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprintf("%020d", v.Uint())
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Float32, reflect.Float64:
		return fmt.Sprint(v.Float())
	}
	return v.Type().String()
}
