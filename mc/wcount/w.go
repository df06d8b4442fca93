// Package wcount counts the steps (function entries, loop iterations, elements
// copied, created or handed to a formatting or sorting routine) of the code under check.
package wcount

import "reflect"

// N is the number of steps executed so far.
var N int64

// L counts the elements of a slice, array pointer or string that is copied or created.
func L[T any](x T) T {
	switch v := reflect.ValueOf(x); v.Kind() {
	case reflect.Slice, reflect.String:
		N += int64(v.Len())
	}
	return x
}
