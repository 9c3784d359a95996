// Package vmap iterates maps in an order the harness chooses; in the copy of /repo that is checked, every
// range over a map goes through it.
package vmap

import (
	"cmp"
	"fmt"
	"iter"
	"slices"
	"sync"
)

var (
	mu    sync.Mutex
	order []int
	used  int
)

// SetOrder sets the order: the k-th key visited is the sorted key number order[k].
func SetOrder(p []int) {
	mu.Lock()
	order, used = p, 0
	mu.Unlock()
}

// Used counts the iterations over maps of the length of the order since it was set.
func Used() int {
	mu.Lock()
	defer mu.Unlock()
	return used
}

// Seq iterates m.
func Seq[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		slices.SortFunc(keys, func(a, b K) int { return cmp.Compare(fmt.Sprint(a), fmt.Sprint(b)) })
		mu.Lock()
		p := order
		if len(p) == len(keys) {
			used++
		} else {
			p = nil
		}
		mu.Unlock()
		for i := range keys {
			k := keys[i]
			if p != nil {
				k = keys[p[i]]
			}
			if v, ok := m[k]; ok && !yield(k, v) {
				return
			}
		}
	}
}
