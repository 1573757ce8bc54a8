package sched

import (
	"fmt"
	"sort"
)

// Keys of a map in a decided order.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	type kv struct {
		s string
		k K
	}
	l := make([]kv, 0, len(m))
	for k := range m {
		l = append(l, kv{fmt.Sprint(k), k})
	}
	desc := MapDesc()
	sort.SliceStable(l, func(i, j int) bool {
		if desc {
			i, j = j, i
		}
		return l[i].s < l[j].s
	})
	r := make([]K, len(l))
	for i := range l {
		r[i] = l[i].k
	}
	return r
}

// ZK and ZV are zero values of a map's key and value.
func ZK[M ~map[K]V, K comparable, V any](m M) (k K) { return }
func ZV[M ~map[K]V, K comparable, V any](m M) (v V) { return }
