package simrt

import (
	"fmt"
	"sort"
)

var (
	mapMode  int
	mapSeed  uint64
	mapCount uint64
)

// It iterates over a map in an order the simulator decides.
type It[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// MapIter starts an iteration.
func MapIter[M ~map[K]V, K comparable, V any](m M) *It[K, V] {
	it := &It[K, V]{m: m}
	if len(m) == 0 {
		return it
	}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sortKeys(it.keys)
	mode, seed := mapOrder()
	switch mode {
	case 1:
		for i, j := 0, len(it.keys)-1; i < j; i, j = i+1, j-1 {
			it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
		}
	case 2:
		for i := len(it.keys) - 1; i > 0; i-- {
			seed = mix(seed)
			j := int(seed % uint64(i+1))
			it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
		}
	}
	return it
}

// MapIter3 starts an iteration and declares its variables.
func MapIter3[M ~map[K]V, K comparable, V any](m M) (*It[K, V], K, V) {
	var k K
	var v V
	return MapIter[M, K, V](m), k, v
}

//go:norace
func mapOrder() (int, uint64) {
	mapCount++
	return mapMode, mix(mapSeed + mapCount*0x9E3779B97F4A7C15)
}

func mix(x uint64) uint64 {
	x += 0x9E3779B97F4A7C15
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9
	x = (x ^ (x >> 27)) * 0x94D049BB133111EB
	return x ^ (x >> 31)
}

// Next moves to the next entry that is still in the map.
func (it *It[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
	case []int:
		sort.Ints(ks)
	default:
		strs := make(map[K]string, len(keys))
		for _, k := range keys {
			strs[k] = fmt.Sprintf("%#v", k)
		}
		sort.Slice(keys, func(i, j int) bool {
			a, b := strs[keys[i]], strs[keys[j]]
			if len(a) != len(b) {
				return len(a) < len(b)
			}
			return a < b
		})
	}
}
