// Package maps iterates in a fixed order.
package maps

import (
	"iter"
	orig "maps"

	"github.com/ftl/sdrainer/zzverif/vsched"
)

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range vsched.MapKeys(m) {
			if v, ok := m[k.Key]; ok && !yield(k.Key, v) {
				return
			}
		}
	}
}

func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		All(m)(func(k K, _ V) bool { return yield(k) })
	}
}

func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		All(m)(func(_ K, v V) bool { return yield(v) })
	}
}

func Insert[M ~map[K]V, K comparable, V any](m M, seq iter.Seq2[K, V]) { orig.Insert(m, seq) }
func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V         { return orig.Collect(seq) }
func Clone[M ~map[K]V, K comparable, V any](m M) M                     { return orig.Clone(m) }
func Equal[M1, M2 ~map[K]V, K, V comparable](m1 M1, m2 M2) bool        { return orig.Equal(m1, m2) }
func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](m1 M1, m2 M2, eq func(V1, V2) bool) bool {
	return orig.EqualFunc(m1, m2, eq)
}
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2)   { orig.Copy(dst, src) }
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) { orig.DeleteFunc(m, del) }
