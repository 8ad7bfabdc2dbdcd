package simrt

import (
	"fmt"
	"sort"
)

// MapIter iterates a map in an order decided by the schedule tape, with the
// semantics of a range statement: entries removed meanwhile are not visited.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

func newMapIter[K comparable, V any](m map[K]V) *MapIter[K, V] {
	it := &MapIter[K, V]{m: m}
	if len(m) == 0 {
		return it
	}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if len(it.keys) < 2 {
		return it
	}
	names := make(map[K]string, len(m))
	for _, k := range it.keys {
		names[k] = fmt.Sprintf("%#v", k)
	}
	sort.SliceStable(it.keys, func(i, j int) bool { return names[it.keys[i]] < names[it.keys[j]] })
	if s := mapOrder(); s != 0 {
		x := uint64(s)
		for i := len(it.keys) - 1; i > 0; i-- {
			x = mix(x)
			j := int(x % uint64(i+1))
			it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
		}
	}
	return it
}

//go:norace
func mapOrder() int {
	if !active {
		return 0
	}
	return tape.Draw(64)
}

func (it *MapIter[K, V]) next() (k K, v V, ok bool) {
	for it.i < len(it.keys) {
		k = it.keys[it.i]
		it.i++
		if v, ok = it.m[k]; ok {
			return k, v, true
		}
	}
	return
}

// Next advances the iterator; nil pointers are skipped.
func (it *MapIter[K, V]) Next(kp *K, vp *V) bool {
	k, v, ok := it.next()
	if !ok {
		return false
	}
	if kp != nil {
		*kp = k
	}
	if vp != nil {
		*vp = v
	}
	return true
}

// MapKV, MapK, MapV and MapN start the iteration of the forms of range.
func MapKV[M ~map[K]V, K comparable, V any](m M) (k K, v V, it *MapIter[K, V]) {
	return k, v, newMapIter[K, V](m)
}
func MapK[M ~map[K]V, K comparable, V any](m M) (k K, it *MapIter[K, V]) {
	return k, newMapIter[K, V](m)
}
func MapV[M ~map[K]V, K comparable, V any](m M) (v V, it *MapIter[K, V]) {
	return v, newMapIter[K, V](m)
}
func MapN[M ~map[K]V, K comparable, V any](m M) *MapIter[K, V] { return newMapIter[K, V](m) }
