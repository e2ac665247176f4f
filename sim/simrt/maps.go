package simrt

import (
	"fmt"
	"reflect"
	"sort"
)

// A map access takes time: between its beginning and its end others may run, and
// when they touch the same map the process dies, as it does for real.

type mapUse struct {
	p               uintptr
	readers, writer int
}

var mapUses map[uintptr]*mapUse

func mapOf(m interface{}) *mapUse {
	p := reflect.ValueOf(m).Pointer()
	if p == 0 {
		return nil
	}
	u := mapUses[p]
	if u == nil {
		if mapUses == nil {
			mapUses = map[uintptr]*mapUse{}
		}
		if n := len(oldUses); n > 0 {
			u = oldUses[n-1]
			oldUses = oldUses[:n-1]
			u.p = p
		} else {
			u = &mapUse{p: p}
		}
		mapUses[p] = u
	}
	return u
}

// oldUses are accesses that are over.
var oldUses []*mapUse

func (u *mapUse) over() {
	if u.readers == 0 && u.writer == 0 {
		delete(mapUses, u.p)
		if len(oldUses) < 64 {
			oldUses = append(oldUses, u)
		}
	}
}

func fatal(s *sim, why string) {
	if s.abort == "" {
		s.abort = "fatal error: " + why
	}
	panic(abortT{})
}

// MR stands for a read of m.
func MR[M ~map[K]V, K comparable, V any](site int32, m M) M {
	s := cur
	if s == nil || len(s.clients) < 2 {
		return m
	}
	if u := mapOf(m); u != nil {
		if u.writer > 0 {
			fatal(s, "concurrent map read and map write")
		}
		u.readers++
		YS(site, 0)
		u.readers--
		u.over()
	}
	return m
}

// MW stands for a write to m.
func MW[M ~map[K]V, K comparable, V any](site int32, m M) M {
	s := cur
	if s == nil || len(s.clients) < 2 {
		return m
	}
	if u := mapOf(m); u != nil {
		if u.writer > 0 {
			fatal(s, "concurrent map writes")
		}
		if u.readers > 0 {
			fatal(s, "concurrent map read and map write")
		}
		u.writer++
		YS(site, 0)
		u.writer--
		u.over()
	}
	return m
}

// Mid stands between the read and the write of an update of a shared variable.
func Mid[T any](site int32, kind int, v T) T {
	YS(site, kind)
	return v
}

// MapIt iterates over a map in the order the plan chose, with Go's semantics
// for entries deleted meanwhile (skipped).
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	K    K
	V    V
}

func MapRange[M ~map[K]V, K comparable, V any](m M) *MapIt[K, V] {
	it := &MapIt[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	keyLess := func(a, b K) bool {
		switch x := any(a).(type) {
		case string:
			return x < any(b).(string)
		case int:
			return x < any(b).(int)
		case byte:
			return x < any(b).(byte)
		}
		va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
		switch va.Kind() {
		case reflect.String:
			return va.String() < vb.String()
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return va.Int() < vb.Int()
		}
		return fmt.Sprint(a) < fmt.Sprint(b)
	}
	sort.SliceStable(it.keys, func(i, j int) bool { return keyLess(it.keys[i], it.keys[j]) })
	MapRanges++
	n := len(it.keys)
	switch mapSeed {
	case 0:
	case 1:
		for i := 0; i < n/2; i++ {
			it.keys[i], it.keys[n-1-i] = it.keys[n-1-i], it.keys[i]
		}
		MapPermuted++
	default:
		s := mapSeed
		for i := n - 1; i > 0; i-- {
			s += 0x9E3779B97F4A7C15
			z := s
			z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
			z = (z ^ (z >> 27)) * 0x94D049BB133111EB
			z ^= z >> 31
			j := int(z % uint64(i+1))
			it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
		}
		MapPermuted++
		mapSeed = s | 2
	}
	return it
}

func (it *MapIt[K, V]) Next() bool {
	MR(harness, it.m)
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		if v, ok := it.m[k]; ok {
			it.K, it.V = k, v
			return true
		}
	}
	return false
}
