//go:build go1.22

package main

import (
	"fmt"
	"math"

	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/zzverif/rt"
)

// ---- P23, one goroutine -------------------------------------------------------

func uPush(core any, x []float64) error {
	switch m := core.(type) {
	case *moment.Core:
		return m.UnsafePush(x[0])
	case *joint.Core:
		return m.UnsafePush(append([]float64{}, x...)...)
	}
	return nil
}

func uClear(core any) {
	switch m := core.(type) {
	case *moment.Core:
		m.UnsafeClear()
	case *joint.Core:
		m.UnsafeClear()
	}
}

type coreLocks interface {
	Lock()
	Unlock()
	RLock()
	RUnlock()
}

// coreQueries lists the queries of a core, with locking and without.
func coreQueries(core any, arity int) (names []string, locking, free []func() (float64, error)) {
	add := func(n string, a, b func() (float64, error)) {
		names, locking, free = append(names, n), append(locking, a), append(free, b)
	}
	switch m := core.(type) {
	case *moment.Core:
		add("Count", func() (float64, error) { return float64(m.Count()), nil }, func() (float64, error) { return float64(m.UnsafeCount()), nil })
		add("Mean", m.Mean, m.UnsafeMean)
		for k := 1; k <= 6; k++ {
			k := k
			add(fmt.Sprintf("Sum(%d)", k), func() (float64, error) { return m.Sum(k) }, func() (float64, error) { return m.UnsafeSum(k) })
		}
	case *joint.Core:
		add("Count", func() (float64, error) { return float64(m.Count()), nil }, func() (float64, error) { return float64(m.UnsafeCount()), nil })
		for i := 0; i <= arity; i++ {
			i := i
			add(fmt.Sprintf("Mean(%d)", i), func() (float64, error) { return m.Mean(i) }, func() (float64, error) { return m.UnsafeMean(i) })
		}
		ts := [][]int{{1, 1}, {2, 0}, {0, 2}, {2, 1}, {1, 2}, {2, 2}, {3, 3}}
		if arity == 3 {
			ts = [][]int{{1, 1, 0}, {0, 1, 1}, {1, 1, 1}, {2, 0, 0}, {0, 0, 2}}
		}
		for _, t := range ts {
			t := t
			add(fmt.Sprintf("Sum(%v)", t), func() (float64, error) { return m.Sum(t...) }, func() (float64, error) { return m.UnsafeSum(t...) })
		}
	}
	return
}

// sectionRun drives one core through lock sections and its twin through
// ordinary calls; every query must agree.
type sectionRun struct {
	c     *rt.C
	k     *Kind
	a, b  *Obj
	locks coreLocks
	names []string
	free  []func() (float64, error)
	own   []func() (float64, error)
	twin  []func() (float64, error)
	state int // 0 unlocked, 1 write section, 2 read section
	n     int
	tr    []string
	bad   bool
}

func newSectionRun(c *rt.C, k *Kind) *sectionRun {
	r := &sectionRun{c: c, k: k}
	var err error
	r.a, err = k.Mk()
	must(err)
	r.b, err = k.Mk()
	must(err)
	r.locks = r.a.Keep.(coreLocks)
	r.names, r.own, r.free = coreQueries(r.a.Keep, k.Arity)
	_, r.twin, _ = coreQueries(r.b.Keep, k.Arity)
	return r
}

var sectionVals = []float64{3, -1, 7, 4.5, 2, -6, 11, 0.5, 8, -2.5}

func (r *sectionRun) val() []float64 {
	x := []float64{sectionVals[r.n%10], sectionVals[(3*r.n+1)%10], sectionVals[(7*r.n+5)%10]}[:r.k.Arity]
	r.n++
	return x
}

// moves are the operations that are possible in a state.
var sectionMoves = [][]string{
	{"Push", "Clear", "queries", "Lock", "RLock"},
	{"UnsafePush", "UnsafeClear", "Unsafe queries", "Unlock"},
	{"Unsafe queries", "RUnlock"},
}

func (r *sectionRun) do(op string) {
	r.tr = append(r.tr, op)
	r.c.R.Transitions++
	switch op {
	case "Push", "UnsafePush":
		x := r.val()
		r.tr[len(r.tr)-1] += fmt.Sprint(x)
		var e error
		if op == "Push" {
			e = r.a.Push(append([]float64{}, x...))
		} else {
			e = uPush(r.a.Keep, x)
		}
		if f := r.b.Push(append([]float64{}, x...)); (e != nil) != (f != nil) {
			r.say("%s%v: error %v, by ordinary calls %v", op, x, e, f)
		}
	case "Clear":
		r.a.Clear()
		r.b.Clear()
	case "UnsafeClear":
		uClear(r.a.Keep)
		r.b.Clear()
	case "queries":
		r.compare("", r.own)
	case "Unsafe queries":
		r.compare("Unsafe", r.free)
	case "Lock":
		r.locks.Lock()
		r.state = 1
	case "Unlock":
		r.locks.Unlock()
		r.state = 0
	case "RLock":
		r.locks.RLock()
		r.state = 2
	case "RUnlock":
		r.locks.RUnlock()
		r.state = 0
	}
}

func (r *sectionRun) say(f string, a ...any) {
	if !r.bad {
		r.bad = true
		r.c.Violate(r.k.Name+"/sections", fmt.Sprintf(r.k.Name+": "+f, a...), append([]string{}, r.tr...))
	}
}

func (r *sectionRun) compare(what string, fs []func() (float64, error)) {
	for i, f := range fs {
		v, e := f()
		w, g := r.twin[i]()
		r.c.R.Evals++
		if (e != nil) != (g != nil) {
			r.say("%s%s gives %v, %v; a core driven by ordinary calls %v, %v", what, r.names[i], v, e, w, g)
			return
		}
		if e == nil && !(math.Abs(v-w) <= 1e-9*(1+math.Abs(w)) || math.IsNaN(v) && math.IsNaN(w)) {
			r.say("%s%s = %v; a core driven by ordinary calls has %v", what, r.names[i], v, w)
			return
		}
	}
}

// finish closes the open section and compares everything.
func (r *sectionRun) finish() {
	switch r.state {
	case 1:
		r.do("Unsafe queries")
		r.do("Unlock")
	case 2:
		r.do("Unsafe queries")
		r.do("RUnlock")
	}
	r.do("queries")
	r.do("RLock")
	r.do("Unsafe queries")
	r.do("RUnlock")
	r.c.R.Traces++
}

func p23seq() *rt.Check {
	return &rt.Check{Property: "P23",
		Rule: "one goroutine: every well-formed history of pushes, clears, queries and of write and read sections with lock-free pushes, clears and queries inside up to the depth; every query must give what a core driven by ordinary calls only gives; also sections of many pushes",
		Bounds: func(t string) string {
			return fmt.Sprintf("histories of %d (joint cores %d) operations, windows 0-3, with and without decay; sections of 1-20, 63-65, 300 and 1100 pushes, windows 0, 1, 2, 5, 8, 64", pick(t, 7, 10), pick(t, 6, 9))
		},
		Jobs: func(tier string) []rt.Job {
			var js []rt.Job
			kinds := func(w int) []*Kind {
				return []*Kind{kCore([]int{2, 5}, w, 0), kCore(nil, w, 0), kJCore([][]int{{2, 1}, {1, 2}}, 0, w, 0), kJCore([][]int{{1, 1, 1}}, 0, w, 0), kJCore(nil, 2, w, 0)}
			}
			decays := []*Kind{kCore([]int{2, 4}, 0, 0.3), kJCore([][]int{{2, 1}, {1, 2}}, 0, 0, 0.3)}
			var ks []*Kind
			for w := 0; w <= 3; w++ {
				ks = append(ks, kinds(w)...)
			}
			for _, k := range append(ks, decays...) {
				k := k
				js = append(js, rt.Job{Name: "sections of " + k.Name, Run: func(c *rt.C) {
					depth := pick(tier, 7, 10)
					if k.Arity > 1 {
						depth = pick(tier, 6, 9)
					}
					var path []string
					n := 0
					var rec func(state int)
					rec = func(state int) {
						if len(path) == depth || c.Expired() {
							r := newSectionRun(c, k)
							safely(c, k.Name, "sections", path, func() {
								for _, op := range path {
									r.do(op)
								}
								r.finish()
							})
							c.R.States++
							if n++; n&63 == 0 {
								rt.Tick()
							}
							return
						}
						for _, op := range sectionMoves[state] {
							next := state
							switch op {
							case "Lock":
								next = 1
							case "RLock":
								next = 2
							case "Unlock", "RUnlock":
								next = 0
							}
							path = append(path, op)
							rec(next)
							path = path[:len(path)-1]
						}
					}
					rec(0)
					if c.Expired() {
						c.Cap("time")
					}
				}})
			}
			js = append(js, rt.Job{Name: "long sections", Run: func(c *rt.C) {
				ks := decays
				for _, w := range []int{0, 1, 2, 5, 8, 64} {
					ks = append(ks, kinds(w)...)
				}
				ns := []int{63, 64, 65, 300, 1100}
				for n := 1; n <= 20; n++ {
					ns = append(ns, n)
				}
				for _, k := range ks {
					for _, n := range ns {
						for _, warm := range []int{0, 3} {
							for _, ask := range []bool{false, true} {
								rt.Tick()
								r := newSectionRun(c, k)
								safely(c, k.Name, "long sections", nil, func() {
									for i := 0; i < warm; i++ {
										r.do("Push")
									}
									r.do("queries")
									r.do("Lock")
									for i := 0; i < n; i++ {
										r.do("UnsafePush")
										if ask {
											r.do("Unsafe queries")
										}
									}
									r.finish()
									r.do("Lock")
									r.do("UnsafeClear")
									r.do("UnsafePush")
									r.finish()
								})
								c.R.States++
							}
						}
					}
				}
			}})
			return js
		}}
}
