//go:build go1.22

package main

import (
	"fmt"
	"math"

	"github.com/alexander-yu/stream/zzverif/rt"
)

// Streams of more than 2^16 values: state that depends on how many values or
// clears there have been (counters, buffers that wrap or grow, periodic
// maintenance) is taken through every size up to there, with the observations
// compared around every power of two and every multiple of the window.

const veryN = 66600

// marks returns the pushes after which everything is compared.
func marks(n int, at ...int) map[int]bool {
	m := map[int]bool{}
	add := func(i int) {
		for d := -1; d <= 1; d++ {
			if i+d >= 1 && i+d <= n {
				m[i+d] = true
			}
		}
	}
	for p := 64; p <= n; p *= 2 {
		add(p)
		m[p+p/2] = true
	}
	for p := 1000; p <= n; p *= 10 {
		add(p)
	}
	for i := 1; i <= 13; i++ {
		m[i*n/13] = true
	}
	for _, a := range at {
		add(a)
	}
	return m
}

func patternNamed(names ...string) []pattern {
	var out []pattern
	for _, n := range names {
		for _, p := range patterns() {
			if p.name == n {
				out = append(out, p)
			}
		}
	}
	return out
}

func patStep(k *Kind, p pattern, i int) Step {
	x := make([]float64, k.Arity)
	for j := range x {
		x[j] = p.f(i)
		if j > 0 {
			x[j] = p.f(i*(j+1)+5*j) - float64(j)
		}
	}
	return Step{X: x}
}

// veryLong runs one pattern for n pushes, with a clear after every clearAt of them.
func veryLong(c *rt.C, k *Kind, p pattern, n, clearAt int) {
	r := newRun(c, k)
	c.Label(func() string {
		return fmt.Sprintf("%s: pattern %s, push %d of a long stream", k.Name, p.name, c.R.Transitions)
	})
	var m map[int]bool
	if k.Window > 0 {
		w := k.Window + k.Lag
		m = marks(n, w, 2*w, 65536+k.Window, 256+k.Window)
	} else {
		m = marks(n, k.Lag, 2*k.Lag, 65536+k.Lag)
	}
	last := 0
	for i := 1; i <= n; i++ {
		r.Do(patStep(k, p, i-1))
		if m[i] || (clearAt > 0 && i-last >= 800) {
			last = i
			r.Check()
			c.R.States++
			if c.Expired() {
				c.Cap(fmt.Sprintf("pattern %s stopped at %d of %d", p.name, i, n))
				return
			}
		}
		if clearAt > 0 && i%clearAt == 0 {
			r.Do(Step{Clear: true})
			if m[i] {
				r.Check()
			}
		}
		if k.Window > 0 && len(r.hist) > 4*k.Window+4*k.Lag+64 && !needsAll(k) {
			r.hist = append([][]float64{}, r.hist[len(r.hist)-(k.Window+k.Lag+2):]...)
		}
		if len(r.steps) > 2000 {
			r.steps = append(make([]Step, 0, 2048), r.steps[len(r.steps)-500:]...)
		}
	}
	c.R.Traces++
	c.Outcome(obsKey(r.Look()))
	if int64(n) > c.R.MaxDepth {
		c.R.MaxDepth = int64(n)
	}
}

func veryLongJob(k *Kind, clearAts []int, names ...string) rt.Job {
	return rt.Job{Name: k.Name + "/very-long", Run: func(c *rt.C) {
		for _, p := range patternNamed(names...) {
			for _, ca := range clearAts {
				if ca > 0 && ca < (k.Window+k.Lag)/100 {
					continue // each clear allocates the whole window
				}
				n := veryN
				if k.Window > 5000 {
					n = 2*k.Window + 1000
				}
				veryLong(c, k, p, n, ca)
			}
		}
		c.Sample(fmt.Sprintf("streams of %d and more pushes with a clear after every %v (0: none), patterns %v", veryN, clearAts, names))
	}}
}

// giantOst builds a structure of n values in one order and removes them in
// another; every value occurs dup times.
func giantOst(c *rt.C, k ostKind, n, dup int, build, remove func(i int) int, name string, extra func(o *ostObj, ms []float64, trace func() []string), values bool) {
	o := k.mk()
	cnt := make([]int8, n)
	size, ops, lv := 0, 0, 0
	trace := func() []string {
		return []string{fmt.Sprintf("%d values, %d copies each, order %s, after %d operations", n, dup, name, ops)}
	}
	c.Label(func() string { return k.name + " " + trace()[0] })
	total := 2 * n * dup
	m := marks(total, n*dup)
	fake := make([]float64, 0, n*dup)
	check := func() {
		c.R.States++
		ms := fake[:0]
		for v, k := range cnt {
			for ; k > 0; k-- {
				ms = append(ms, float64(v))
			}
		}
		if values {
			c.R.Evals++
			bad := func(f string, a ...any) {
				c.Violate(k.name+"/giant", k.name+": "+fmt.Sprintf(f, a...), trace())
			}
			if s := o.s.Size(); s != len(ms) {
				bad("Size() = %d, want %d", s, len(ms))
			}
			for j := 0; j < len(ms); j += 1 + len(ms)/600 {
				x := o.s.Select(j)
				if isNilNode(x) {
					bad("Select(%d) found nothing, want %g", j, ms[j])
				}
				if x.Value() != ms[j] {
					bad("Select(%d) = %g, want %g", j, x.Value(), ms[j])
				}
				w := j
				for w > 0 && ms[w-1] == ms[j] {
					w--
				}
				if r := o.s.Rank(ms[j]); r != w {
					bad("Rank(%g) = %d, want %d", ms[j], r, w)
				}
				if r := o.s.Rank(ms[j] - 0.5); r != w {
					bad("Rank(%g) = %d, want %d", ms[j]-0.5, r, w)
				}
			}
			for _, j := range []int{-1, len(ms), len(ms) + 70000} {
				if x := o.s.Select(j); !isNilNode(x) {
					bad("Select(%d) found %g although there are %d values", j, x.Value(), len(ms))
				}
			}
		}
		if extra != nil {
			extra(o, ms, trace)
		}
	}
	guardOst(c, k.name, trace, values, func() {
		step := func(p oop) {
			rt.Tick()
			ops++
			if p.kind == 'A' && k.levels > 0 {
				lv++
				p.level = 1
				for x := lv; x&1 == 0 && p.level < k.levels; x >>= 1 {
					p.level++
				}
			}
			o.do(p)
			c.R.Transitions++
			if m[ops] && !c.Expired() {
				check()
			}
		}
		for d := 0; d < dup; d++ {
			for i := 0; i < n; i++ {
				v := build(i)
				cnt[v]++
				size++
				step(oop{'A', float64(v), 0})
			}
		}
		for d := 0; d < dup; d++ {
			for i := 0; i < n; i++ {
				v := remove(i)
				cnt[v]--
				size--
				step(oop{'R', float64(v), 0})
			}
		}
		check()
	})
	c.R.Traces++
	c.Outcome(name)
	c.R.MaxDepth = int64(total)
}

type giantOrder struct {
	name          string
	build, remove func(i int) int
}

func giantOrders(n int) []giantOrder {
	id := func(i int) int { return i }
	rev := func(i int) int { return n - 1 - i }
	// n is no multiple of 7919, so this visits every value once
	stride := func(i int) int { return int(int64(i) * 7919 % int64(n)) }
	inout := func(i int) int {
		if i%2 == 0 {
			return i / 2
		}
		return n - 1 - i/2
	}
	return []giantOrder{{"asc-desc", id, rev}, {"asc-asc", id, id}, {"desc-stride", rev, stride}, {"stride-inout", stride, inout}, {"stride-stride", stride, stride}}
}

// giantJobs: structures of more than 2^16 values.
func giantJobs(k ostKind, n int, values bool, extra func(c *rt.C) func(o *ostObj, ms []float64, trace func() []string)) []rt.Job {
	var js []rt.Job
	for _, g := range giantOrders(n) {
		for dup := 1; dup <= 2; dup++ {
			g, dup := g, dup
			js = append(js, rt.Job{Name: fmt.Sprintf("%s/giant-%dx%d-%s", k.name, n, dup, g.name), Run: func(c *rt.C) {
				var e func(o *ostObj, ms []float64, trace func() []string)
				if extra != nil {
					e = extra(c)
				}
				giantOst(c, k, n, dup, g.build, g.remove, g.name, e, values)
			}})
		}
	}
	return js
}

var _ = math.Abs
