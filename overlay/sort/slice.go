// Package sort: the reflection-based entry points, with reflection replaced by two functions of the engine; the
// algorithms are the real ones.
package sort

import "math/bits"

func symSwap(x any, i, j int) { panic("model") }
func symLen(x any) int        { panic("model") }

func Slice(x any, less func(i, j int) bool) {
	n := symLen(x)
	pdqsort_func(lessSwap{less, func(i, j int) { symSwap(x, i, j) }}, 0, n, bits.Len(uint(n)))
}

func SliceStable(x any, less func(i, j int) bool) {
	stable_func(lessSwap{less, func(i, j int) { symSwap(x, i, j) }}, symLen(x))
}

func SliceIsSorted(x any, less func(i, j int) bool) bool {
	n := symLen(x)
	for i := n - 1; i > 0; i-- {
		if less(i, i-1) {
			return false
		}
	}
	return true
}
