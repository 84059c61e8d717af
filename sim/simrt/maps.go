package simrt

import (
	"fmt"
	"iter"
	"slices"
	"sort"
)

// Map ranges over a map in an order decided by the simulator. The Go language
// leaves the order unspecified, so every permutation is legal.
func Map[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		keys := Keys(m)
		for _, k := range keys {
			v, ok := m[k]
			if !ok { // deleted during the iteration
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// Keys returns the keys of m in simulator order.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) < 2 {
		return keys
	}
	switch ks := any(keys).(type) {
	case []int:
		slices.Sort(ks)
	case []string:
		slices.Sort(ks)
	default:
		text := make(map[K]string, len(keys))
		for _, k := range keys {
			text[k] = fmt.Sprintf("%#v", k)
		}
		sort.Slice(keys, func(i, j int) bool { return text[keys[i]] < text[keys[j]] })
	}
	permute(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	return keys
}

// permute decides the order of n keys.
//
//go:noinline
func permute(n int, swap func(i, j int)) {
	s := S
	if s == nil {
		return
	}
	s.MapRanges++
	if !s.MapOrders {
		return
	}
	d := s.Draw(Sched, 1<<16)
	switch d {
	case 0:
	case 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			swap(i, j)
		}
	default:
		r := rng{uint64(d)}
		for i := n - 1; i > 0; i-- {
			swap(i, int(r.next()%uint64(i+1)))
		}
	}
	if d > 0 {
		s.MapPerms++
		if n > s.MaxMapPerm {
			s.MaxMapPerm = n
		}
	}
}
