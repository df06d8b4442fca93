//go:build go1.22

package main

import (
	"container/heap"
	"container/list"
	"container/ring"
	"slices"
	"sort"

	"github.com/alexander-yu/stream/zzverif/wcount"
)

// steps is the number of steps executed so far, standard containers included.
func steps() int64 {
	return wcount.N + slices.ZZSteps + sort.ZZSteps + heap.ZZSteps + list.ZZSteps + ring.ZZSteps
}
