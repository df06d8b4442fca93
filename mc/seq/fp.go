//go:build go1.22

package main

import (
	"encoding/binary"
	"math"
	"math/rand"
	"reflect"
	"sync"

	"github.com/gammazero/deque"
	"github.com/workiva/go-datastructures/queue"
)

// fingerprint serialises everything reachable from v (unexported fields
// included) into a canonical byte string: pointers become visit numbers, a ring
// buffer and a deque become the list of their contents (their behaviour depends
// on nothing else), mutexes and random generators are left out (the explorer
// owns them). Two objects with equal fingerprints have equal futures.
func fingerprint(v any) string {
	f := &fper{ids: map[uintptr]int{}}
	f.walk(reflect.ValueOf(v))
	return string(f.b)
}

type fper struct {
	b   []byte
	ids map[uintptr]int
}

var (
	tRing  = reflect.TypeOf(&queue.RingBuffer{})
	tDeque = reflect.TypeOf(deque.Deque[float64]{})
	tRand  = reflect.TypeOf(&rand.Rand{})
	tMux   = reflect.TypeOf(sync.Mutex{})
	tRW    = reflect.TypeOf(sync.RWMutex{})
)

func (f *fper) u(x uint64) { f.b = binary.AppendUvarint(f.b, x) }

func (f *fper) walk(v reflect.Value) {
	if !v.IsValid() {
		f.b = append(f.b, 'Z')
		return
	}
	t := v.Type()
	switch t {
	case tMux, tRW, tRand:
		return
	case tRing:
		if v.IsNil() {
			f.b = append(f.b, 'N')
			return
		}
		e := v.Elem()
		q, d := e.FieldByName("queue"), e.FieldByName("dequeue")
		nodes, mask, disp := e.FieldByName("nodes"), e.FieldByName("mask"), e.FieldByName("disposed")
		if q.IsValid() && d.IsValid() && nodes.IsValid() && mask.IsValid() && disp.IsValid() && q.Uint() >= d.Uint() && q.Uint()-d.Uint() <= uint64(nodes.Len()) {
			f.b = append(f.b, 'Q')
			f.u(uint64(nodes.Len()))
			f.u(disp.Uint())
			f.u(q.Uint() - d.Uint())
			for i := d.Uint(); i < q.Uint(); i++ {
				f.walk(nodes.Index(int(i & mask.Uint())).Elem().FieldByName("data"))
			}
			return
		}
	case tDeque:
		buf, head, count := v.FieldByName("buf"), v.FieldByName("head"), v.FieldByName("count")
		if buf.IsValid() && head.IsValid() && count.IsValid() {
			f.b = append(f.b, 'D')
			n := int(count.Int())
			f.u(uint64(n))
			for i := 0; i < n; i++ {
				f.walk(buf.Index((int(head.Int()) + i) % buf.Len()))
			}
			return
		}
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			f.b = append(f.b, 1)
		} else {
			f.b = append(f.b, 0)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		f.b = binary.AppendVarint(f.b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		f.u(v.Uint())
	case reflect.Float32, reflect.Float64:
		f.b = binary.LittleEndian.AppendUint64(f.b, math.Float64bits(v.Float()))
	case reflect.String:
		f.u(uint64(v.Len()))
		f.b = append(f.b, v.String()...)
	case reflect.Ptr:
		if v.IsNil() {
			f.b = append(f.b, 'N')
			return
		}
		p := v.Pointer()
		if id, ok := f.ids[p]; ok {
			f.b = append(f.b, 'R')
			f.u(uint64(id))
			return
		}
		f.ids[p] = len(f.ids)
		f.b = append(f.b, 'P')
		f.walk(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			f.b = append(f.b, 'N')
			return
		}
		f.b = append(f.b, 'I')
		f.b = append(f.b, v.Elem().Type().String()...)
		f.walk(v.Elem())
	case reflect.Slice:
		if v.IsNil() {
			f.b = append(f.b, 'N')
			return
		}
		f.b = append(f.b, 'S')
		f.u(uint64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			f.walk(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			f.walk(v.Index(i))
		}
	case reflect.Map:
		f.b = append(f.b, 'M')
		f.u(uint64(v.Len()))
		// order-independent: sort the serialised entries
		var es []string
		for it := v.MapRange(); it.Next(); {
			g := &fper{ids: f.ids}
			g.walk(it.Key())
			g.walk(it.Value())
			es = append(es, string(g.b))
		}
		sortStrings(es)
		for _, e := range es {
			f.b = append(f.b, e...)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f.walk(v.Field(i))
		}
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if v.IsNil() {
			f.b = append(f.b, 'N')
		} else {
			f.b = append(f.b, 'F')
		}
	}
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}
