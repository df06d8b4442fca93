//go:build go1.22

package main

import (
	"fmt"
	"math"
	"reflect"
	"unsafe"

	"github.com/alexander-yu/stream/sample"
	"github.com/alexander-yu/stream/zzverif/rt"
	"github.com/alexander-yu/stream/zzverif/vrand"
)

// A token is an item without any content: reservoirs that differ only in which
// items they hold have the same fingerprint.
type token struct{ _ [8]byte }

var tToken = reflect.TypeOf(&token{})

// clone copies everything reachable from p except the tokens.
func clone[T any](p *T) *T {
	cl := &cloner{ptrs: map[uintptr]reflect.Value{}}
	return cl.copy(reflect.ValueOf(p)).Interface().(*T)
}

type cloner struct{ ptrs map[uintptr]reflect.Value }

// open makes a field readable and settable whatever its case.
func open(v reflect.Value) reflect.Value {
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

func (cl *cloner) copy(v reflect.Value) reflect.Value {
	t := v.Type()
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || t == tToken {
			return v
		}
		if w, ok := cl.ptrs[v.Pointer()]; ok && w.Type() == t {
			return w
		}
		n := reflect.New(t.Elem())
		cl.ptrs[v.Pointer()] = n
		cl.into(n.Elem(), v.Elem())
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(t).Elem()
		n.Set(cl.copy(v.Elem()))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		if old, ok := v.Interface().([]interface{}); ok && onlyTokens(old) {
			return reflect.ValueOf(append(make([]interface{}, 0, cap(old)), old...))
		}
		n := reflect.MakeSlice(t, v.Len(), v.Cap())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(cl.copy(v.Index(i)))
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(t)
		for it := v.MapRange(); it.Next(); {
			n.SetMapIndex(cl.copy(it.Key()), cl.copy(it.Value()))
		}
		return n
	case reflect.Struct, reflect.Array:
		n := reflect.New(t).Elem()
		a := reflect.New(t).Elem()
		a.Set(v)
		cl.into(n, a)
		return n
	}
	return v
}

func onlyTokens(xs []interface{}) bool {
	for _, x := range xs {
		if _, ok := x.(*token); !ok {
			return false
		}
	}
	return true
}

func (cl *cloner) into(dst, src reflect.Value) {
	switch src.Kind() {
	case reflect.Struct:
		for i := 0; i < src.NumField(); i++ {
			cl.into(open(dst.Field(i)), open(src.Field(i)))
		}
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			cl.into(dst.Index(i), src.Index(i))
		}
	default:
		dst.Set(cl.copy(src))
	}
}

// step pushes tok under every outcome of the draws of that push.
func step(c *rt.C, r *sample.Reservoir, size int, tok *token, f func(r *sample.Reservoir, w float64)) bool {
	var tail, draws, arity []int
	for n := 0; ; n++ {
		draws, arity = draws[:0], arity[:0]
		vrand.Chooser = func(m int) int {
			v := 0
			if i := len(draws); i < len(tail) {
				v = tail[i]
			}
			draws, arity = append(draws, v), append(arity, m)
			return v
		}
		q := clone(r)
		q.Push(tok)
		c.R.Transitions++
		if vrand.Inexact {
			return false
		}
		if n&1023 == 0 {
			rt.Tick()
			if c.Expired() {
				return false
			}
		}
		w := 1.0
		for _, m := range arity {
			w /= float64(m)
		}
		f(q, w)
		tail = append(tail[:0], draws...)
		for len(tail) > 0 && tail[len(tail)-1]+1 >= arity[len(tail)-1] {
			tail = tail[:len(tail)-1]
		}
		if len(tail) == 0 {
			return true
		}
		tail[len(tail)-1]++
	}
}

type tokens []token

func (ts tokens) index(x any) int {
	p, ok := x.(*token)
	if !ok {
		return -1
	}
	d := int(uintptr(unsafe.Pointer(p)) - uintptr(unsafe.Pointer(&ts[0])))
	if d < 0 || d%8 != 0 || d/8 >= len(ts) {
		return -1
	}
	return d / 8
}

// held checks the sample of a reservoir after k pushes and returns it.
func held(c *rt.C, r *sample.Reservoir, ts tokens, size, k int) []int {
	got := r.Sample()
	trace := []string{fmt.Sprintf("Reservoir{Size: %d}, %d pushes", size, k)}
	if len(got) != min(k, size) {
		c.Violate(fmt.Sprintf("size %d/size", size), fmt.Sprintf("after %d pushes a reservoir of size %d holds %d items", k, size, len(got)), trace)
	}
	idx := make([]int, len(got))
	seen := make([]uint64, len(ts)/64+1)
	for i, x := range got {
		idx[i] = ts.index(x)
		if idx[i] < 0 || idx[i] >= k {
			c.Violate(fmt.Sprintf("size %d/foreign", size), fmt.Sprintf("after %d pushes the sample holds an item that was not pushed", k), trace)
		}
		if b := uint64(1) << (idx[i] % 64); seen[idx[i]/64]&b != 0 {
			c.Violate(fmt.Sprintf("size %d/twice", size), fmt.Sprintf("after %d pushes the sample holds position %d twice", k, idx[i]), trace)
		} else {
			seen[idx[i]/64] |= b
		}
	}
	return idx
}

// private checks that the reservoir does not notice what happens to a returned sample.
func private(c *rt.C, r *sample.Reservoir, size, k int) {
	want := append([]interface{}{}, r.Sample()...)
	for round := 0; round < 2; round++ {
		got := r.Sample()
		c.R.Evals++
		for i := range want {
			if i >= len(got) || got[i] != want[i] {
				c.Violate(fmt.Sprintf("size %d/private", size), fmt.Sprintf("size %d, %d pushes: writing into a returned sample changes the next one", size, k), []string{fmt.Sprintf("Reservoir{Size: %d}, %d pushes", size, k)})
			}
		}
		for i := range got {
			got[i] = nil
		}
		if more := got[:cap(got)]; len(more) > len(got) {
			for i := range more[len(got):] {
				more[len(got)+i] = nil
			}
		}
	}
}

// relabelled: the reservoir as a Markov chain up to the identity of the items,
// which it cannot look into: after every push every internal state (fingerprint
// with the items replaced by tokens), every outcome of the draws of the next push
// in each, and from them the probability of every position to be in the sample.
func relabelled(c *rt.C, size, n int) {
	if unsupported != "" {
		c.Cap("not explored: " + unsupported)
		return
	}
	vrand.Enum = true
	defer func() { vrand.Enum, vrand.Chooser = false, nil }()
	vrand.Inexact = false
	ts := make(tokens, n+1)
	type node struct {
		r    *sample.Reservoir
		idx  []int
		p    float64
		marg [][]float64 // slot, item: probability together with this state
	}
	r0 := &sample.Reservoir{Size: size}
	cur := []*node{{r: r0, p: 1}}
	maxStates, uni := 1, 0
	for k := 1; k <= n; k++ {
		byFp := map[string]*node{}
		var next []*node
		uniformStep := len(cur) == 1
		for _, st := range cur {
			type edge struct {
				to *node
				m  []int // slot -> previous slot, -1 for the new item
				w  float64
			}
			edges := map[string]*edge{}
			var order []*edge
			pos := make([]int, k) // 1 + slot in the state before
			for o, x := range st.idx {
				pos[x] = o + 1
			}
			kb := []byte{}
			ok := step(c, st.r, size, &ts[k-1], func(q *sample.Reservoir, w float64) {
				idx := held(c, q, ts, size, k)
				fp := fingerprint(q)
				to := byFp[fp]
				if to == nil {
					to = &node{r: q, idx: idx, marg: make([][]float64, len(idx))}
					for i := range to.marg {
						to.marg[i] = make([]float64, n+1)
					}
					byFp[fp] = to
					next = append(next, to)
				}
				m := make([]int, len(idx))
				for j, it := range idx {
					m[j] = pos[it] - 1
					if m[j] < 0 && it != k-1 {
						c.Violate(fmt.Sprintf("size %d/back", size), fmt.Sprintf("push %d brought position %d back into a sample that had lost it", k, it), nil)
					}
				}
				kb = append(kb[:0], fp...)
				for _, x := range m {
					kb = append(kb, byte(x), byte(x>>8))
				}
				e := edges[string(kb)]
				if e == nil {
					e = &edge{to: to, m: m}
					edges[string(kb)] = e
					order = append(order, e)
				}
				e.w += w
			})
			if !ok {
				if vrand.Inexact {
					c.Count("streams left to the complete enumeration", 1)
				} else {
					c.Cap(fmt.Sprintf("%d pushes done", k-1))
				}
				return
			}
			if k > size && len(order) != size+1 {
				uniformStep = false
			}
			// slot j of the new state takes over slot o of the old one with weight w
			type flow struct {
				to   *node
				j, o int
			}
			flows := map[flow]float64{}
			for _, e := range order {
				e.to.p += st.p * e.w
				fresh := 0
				for j, o := range e.m {
					if o < 0 {
						fresh++
						e.to.marg[j][k-1] += st.p * e.w
						continue
					}
					flows[flow{e.to, j, o}] += e.w
				}
				if k > size && fresh == 1 && math.Abs(e.w*float64(k)-1) > 1e-9 {
					uniformStep = false
				}
			}
			for f, w := range flows {
				to, from := f.to.marg[f.j], st.marg[f.o]
				for i := 0; i < k-1; i++ {
					to[i] += from[i] * w
				}
			}
		}
		if uniformStep {
			uni++
		}
		for _, st := range next {
			private(c, clone(st.r), size, k)
		}
		want := math.Min(1, float64(size)/float64(k))
		for i := 0; i < k; i++ {
			p := 0.0
			for _, st := range next {
				for _, m := range st.marg {
					p += m[i]
				}
			}
			c.R.Evals++
			if math.Abs(p-want) > 1e-7*want {
				c.Violate(fmt.Sprintf("size %d/bias", size), fmt.Sprintf("size %d, %d pushes: position %d is in the sample with probability %.10g, want %.10g", size, k, i, p, want),
					[]string{fmt.Sprintf("Reservoir{Size: %d}, %d pushes, every outcome of the draws", size, k)})
			}
		}
		c.R.States += int64(len(next))
		maxStates = max(maxStates, len(next))
		if len(next) > 200 {
			c.Cap(fmt.Sprintf("%d pushes: %d internal states", k, len(next)))
			return
		}
		cur = next
		c.R.MaxDepth = max(c.R.MaxDepth, int64(k))
	}
	c.R.Traces++
	c.Outcome(fmt.Sprint(size, n, maxStates))
	c.Sample(fmt.Sprintf("size %d, %d items: at most %d internal states per push up to the items' identity; %d of %d pushes replace each slot with equal probability (which makes all subsets equally likely)", size, n, maxStates, uni, n))
}

// far takes reservoirs through a long stream along three sequences of draws and
// there enumerates the draws of a few pushes. It judges only reservoirs whose
// internal state after a push does not depend on the draws (but for the items'
// identities): then the new item must get in with probability size/k and each
// slot must give way equally often.
func far(c *rt.C, size int, ks []int) {
	if unsupported != "" {
		c.Cap("not explored: " + unsupported)
		return
	}
	vrand.Enum = true
	defer func() { vrand.Enum, vrand.Chooser = false, nil }()
	vrand.Inexact = false
	top := ks[len(ks)-1]
	ts := make(tokens, top+1)
	choose := []func(i, n int) int{
		func(i, n int) int { return n - 1 },
		func(i, n int) int { return 0 },
		func(i, n int) int { return i * 7 % n },
	}
	rs := make([]*sample.Reservoir, len(choose))
	for i := range rs {
		rs[i] = &sample.Reservoir{Size: size}
	}
	stamp := make([]int, top+1)
	calls := 1
	done := 0
	for k := 1; k <= top; k++ {
		if done < len(ks) && ks[done] == k {
			done++
			same := fingerprint(rs[0])
			for _, r := range rs {
				if k > 0 && fingerprint(r) != same {
					c.Count("not judged: several internal states", 1)
					return
				}
			}
			before := held(c, rs[2], ts, size, k-1)
			in := 0.0
			slot := make([]float64, size)
			if !step(c, rs[2], size, &ts[k-1], func(q *sample.Reservoir, w float64) {
				idx := held(c, q, ts, size, k)
				for _, it := range idx {
					stamp[it] = calls
				}
				if stamp[k-1] == calls {
					in += w
				}
				for j, it := range before {
					if stamp[it] != calls {
						slot[j] += w
					}
				}
				calls++
			}) {
				c.Count("not judged: draws not enumerated", 1)
				return
			}
			c.R.States++
			c.R.Evals++
			trace := []string{fmt.Sprintf("Reservoir{Size: %d}, %d pushes, every outcome of the draws of the last one", size, k)}
			if want := float64(size) / float64(k); math.Abs(in-want) > 1e-7*want {
				c.Violate(fmt.Sprintf("size %d/bias", size), fmt.Sprintf("size %d: push %d gets into the sample with probability %.10g, want %.10g", size, k, in, want), trace)
			}
			for j, p := range slot {
				if want := 1 / float64(k); math.Abs(p-want) > 1e-7*want {
					c.Violate(fmt.Sprintf("size %d/bias", size), fmt.Sprintf("size %d: push %d throws out the item in place %d with probability %.10g, want %.10g", size, k, j, p, want), trace)
				}
			}
		}
		for i, r := range rs {
			vrand.Chooser = func(n int) int { return choose[i](k, n) }
			r.Push(&ts[k-1])
		}
		c.R.Transitions += int64(len(rs))
		if vrand.Inexact {
			c.Count("not judged: draws not enumerated", 1)
			return
		}
	}
	for _, r := range rs {
		held(c, r, ts, size, top)
		private(c, r, size, top)
	}
	c.R.Traces++
	c.R.MaxDepth = int64(top)
	c.Outcome(fmt.Sprint(size, ks))
	c.Sample(fmt.Sprintf("size %d: pushes %v enumerated", size, ks))
}
