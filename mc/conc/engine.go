//go:build go1.22

package main

import (
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"unsafe"

	"github.com/alexander-yu/stream/zzverif/rt"
	"github.com/alexander-yu/stream/zzverif/vrand"
	"github.com/alexander-yu/stream/zzverif/vsync"
)

// Act is one call of a scenario on the shared state.
type Act struct {
	Name string
	F    func(st any) []Obs
}

// Scn is a scenario: a fresh state, one program per thread, calls made alone
// after all threads ended.
type Scn struct {
	Name    string
	Mk      func() any
	Threads [][]Act
	Final   []Act
	Enum    bool                             // random draws are enumerated
	NoSeq   bool                             // calls wait for each other: no one-at-a-time order
	Check   func(st any, res [][]Obs) string // extra rule on the outcome of a schedule
}

// judge says which findings count for the property at hand.
type judge struct {
	race, lin, dead bool
	apart           bool // the threads share nothing: only results count, not the order of calls
	bound           int  // preemption bound that must be completed
	cap             int  // schedules tried without a bound on preemptions
	depart          bool // instead: every schedule with at most bound departures from either default order
}

type outcome struct {
	res    [][]Obs
	orders [][]int // thread of each call, in order
}

func sameRes(a, b [][]Obs) bool {
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			x, y := a[i][j], b[i][j]
			if x.Err != y.Err {
				return false
			}
			if x.Err {
				continue
			}
			if x.V == y.V || math.IsNaN(x.V) && math.IsNaN(y.V) {
				continue
			}
			if !(math.Abs(x.V-y.V) <= 1e-9*(1+math.Max(math.Abs(x.V), math.Abs(y.V)))) {
				return false
			}
		}
	}
	return true
}

func resKey(r [][]Obs) string {
	var b []byte
	for _, x := range r {
		for _, o := range x {
			u := math.Float64bits(o.V)
			if o.Err {
				u = 1<<63 - 7
			}
			for i := 0; i < 8; i++ {
				b = append(b, byte(u>>(8*i)))
			}
		}
		b = append(b, '|')
	}
	return string(b)
}

func fmtRes(sc *Scn, r [][]Obs) []string {
	var out []string
	k := 0
	for t, p := range sc.Threads {
		for i, a := range p {
			out = append(out, fmt.Sprintf("thread %d call %d: %s -> %s", t, i, a.Name, fmtAll(r[k])))
			k++
		}
	}
	for _, a := range sc.Final {
		out = append(out, fmt.Sprintf("afterwards: %s -> %s", a.Name, fmtAll(r[k])))
		k++
	}
	return out
}

func schedTrace(x *vsync.Sched) []string {
	var out []string
	for _, e := range x.Trace {
		out = append(out, fmt.Sprintf("T%d %s", e.T, e.What))
	}
	return out
}

// alone runs f under the scheduler with nobody else; false when it cannot finish.
func alone(f func()) (ok bool, why string) {
	return runAlone(vsync.NewSched(0), f)
}

func runAlone(x *vsync.Sched, f func()) (ok bool, why string) {
	x.Run([]func(){f})
	switch {
	case x.Panicked != nil:
		if rt.Stopped(x.Panicked) {
			panic(x.Panicked)
		}
		return false, fmt.Sprintf("panic: %v\n%s", x.Panicked, x.Stack)
	case x.Deadlock:
		return false, fmt.Sprintf("blocks forever: %v", x.Blocked)
	case x.Overrun:
		return false, "does not end"
	}
	return true, ""
}

func fresh(sc *Scn) any {
	resetAll()
	vrand.Reset()
	var st any
	if ok, why := alone(func() { st = sc.Mk() }); !ok {
		panic(fmt.Sprintf("%s: building the scenario: %s", sc.Name, why))
	}
	return st
}

// sequential computes the outcomes of all one-at-a-time orders.
func sequential(c *rt.C, sc *Scn, j judge) ([]*outcome, bool) {
	var outs []*outcome
	n := 0
	for _, p := range sc.Threads {
		n += len(p)
	}
	pos := make([]int, len(sc.Threads))
	order := make([]int, 0, n)
	good := true
	base := make([]int, len(sc.Threads))
	b := 0
	for t, p := range sc.Threads {
		base[t] = b
		b += len(p)
	}
	var rec func()
	rec = func() {
		if !good {
			return
		}
		if len(order) == n {
			x := vsync.NewSched(0)
			var (
				st  any
				res [][]Obs
				at  []int
				ok  bool
				why string
			)
			for {
				st = fresh(sc)
				res = make([][]Obs, n+len(sc.Final))
				at = make([]int, len(sc.Threads))
				ok, why = runAlone(x, func() {
					for _, t := range order {
						res[base[t]+at[t]] = sc.Threads[t][at[t]].F(st)
						at[t]++
					}
					for i, a := range sc.Final {
						res[n+i] = a.F(st)
					}
				})
				c.R.Transitions += int64(n)
				if !ok {
					good = false
					if j.dead && strings.HasPrefix(why, "blocks") {
						var tr []string
						at := make([]int, len(sc.Threads))
						for _, t := range order {
							tr = append(tr, sc.Threads[t][at[t]].Name)
							at[t]++
						}
						for _, a := range sc.Final {
							tr = append(tr, a.Name)
						}
						c.Violate(sc.Name+"/stuck", "calls made one after the other by one goroutine: "+why, tr)
					}
					return
				}
				found := false
				for _, o := range outs {
					if sameRes(o.res, res) {
						o.orders = append(o.orders, append([]int{}, order...))
						found = true
						break
					}
				}
				if !found {
					outs = append(outs, &outcome{res, [][]int{append([]int{}, order...)}})
				}
				if !sc.Enum || !x.Next() {
					return
				}
			}
		}
		for t := range sc.Threads {
			if pos[t] < len(sc.Threads[t]) {
				pos[t]++
				order = append(order, t)
				rec()
				order = order[:len(order)-1]
				pos[t]--
			}
		}
	}
	rec()
	return outs, good
}

// fits: does the order respect the real-time precedence of the recorded calls?
func fits(order []int, ops [][]vsync.Op) bool {
	pos := make([]int, len(ops))
	var seq []*vsync.Op
	for _, t := range order {
		seq = append(seq, &ops[t][pos[t]])
		pos[t]++
	}
	for i := range seq {
		for k := i + 1; k < len(seq); k++ {
			if seq[k].Ret < seq[i].Call {
				return false
			}
		}
	}
	return true
}

var noPOR = os.Getenv("ZZ_NOPOR") != ""

// syncObjs lists the synchronisation objects reachable from the state of a
// scenario, in an order that depends on its shape only.
func syncObjs(st any) []unsafe.Pointer {
	w := &objWalk{seen: map[unsafe.Pointer]bool{}}
	w.walk(reflect.ValueOf(st))
	return w.out
}

type objWalk struct {
	seen map[unsafe.Pointer]bool
	out  []unsafe.Pointer
}

// plain: no synchronisation object can hide in a value of this type.
var plainTypes = map[reflect.Type]bool{}

func isPlain(t reflect.Type) bool {
	p, ok := plainTypes[t]
	if ok {
		return p
	}
	plainTypes[t] = false
	switch t.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Map, reflect.Chan, reflect.Func:
		p = false
	case reflect.Slice, reflect.Array:
		p = isPlain(t.Elem())
	case reflect.Struct:
		p = !strings.Contains(t.PkgPath(), "zzverif/v")
		for i := 0; i < t.NumField() && p; i++ {
			p = isPlain(t.Field(i).Type)
		}
	default:
		p = true
	}
	plainTypes[t] = p
	return p
}

func (w *objWalk) walk(v reflect.Value) {
	if !v.IsValid() || isPlain(v.Type()) {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		p := v.UnsafePointer()
		if w.seen[p] || isPlain(v.Type().Elem()) {
			return
		}
		w.seen[p] = true
		if v.Type().Elem() == reflect.TypeOf(stub{}) {
			w.out = append(w.out, p)
		}
		w.walk(v.Elem())
	case reflect.Interface:
		w.walk(v.Elem())
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i))
		}
	case reflect.Struct:
		if strings.Contains(v.Type().PkgPath(), "zzverif/v") {
			if v.CanAddr() {
				w.out = append(w.out, unsafe.Pointer(v.UnsafeAddr()))
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			w.walk(v.Field(i))
		}
	}
}

// heavy counts a job's scenarios with too many schedules even within the bound
// on preemptions; after two of them it does not try any more.
var heavy = map[*rt.C]int{}

// explore runs every schedule of the scenario.
func explore(c *rt.C, sc *Scn, j judge) {
	if unsupported != "" {
		c.Cap("the code under check blocks in ways the scheduler does not control (" + unsupported + ")")
		return
	}
	runtime.GOMAXPROCS(1)
	rt.Tick()
	c.Label(func() string { return sc.Name })
	var outs []*outcome
	if sc.NoSeq {
		j.lin = false
	} else if j.lin {
		var ok bool
		if outs, ok = sequential(c, sc, j); !ok {
			c.Count("scenarios whose sequential run fails (not judged)", 1)
			return
		}
	} else if j.dead {
		if _, ok := sequential(c, sc, j); !ok {
			return
		}
	}
	matched := map[string][][]int{}
	reverse := false
	exploreBound := func(bound, limit int) bool {
		x := vsync.NewSched(bound)
		x.POR = bound < 0 && !noPOR
		x.Depart, x.Reverse = j.depart, reverse
		from := c.R.Traces
	again:
		for runs := 0; ; runs++ {
			if runs&15 == 0 {
				rt.Tick()
				if c.Expired() {
					c.Cap("time")
					return false
				}
			}
			if limit > 0 && c.R.Traces-from >= int64(limit) || runs > 40*limit && limit > 0 {
				return false
			}
			oneSchedule(c, sc, j, x, outs, matched)
			if x.POR && x.Shared && !x.Strict {
				strict := vsync.NewSched(bound)
				strict.POR, strict.Strict = true, true
				x = strict
				goto again
			}
			if !x.Next() {
				return true
			}
		}
	}
	if os.Getenv("ZZ_DBG") != "" {
		n0 := c.R.Traces
		defer func() {
			f, _ := os.OpenFile(os.Getenv("ZZ_DBG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
			fmt.Fprintln(f, c.R.Traces-n0, sc.Name)
			f.Close()
		}()
	}
	if j.depart {
		ok := exploreBound(j.bound, 0)
		reverse = true
		if ok && exploreBound(j.bound, 0) {
			c.Count(fmt.Sprintf("scenarios explored up to %d departures from first-come and last-come order", j.bound), 1)
		}
		return
	}
	// without a bound first; when that is too much, complete the bound
	if heavy[c] < 2 {
		if exploreBound(-1, j.cap) {
			c.Count("scenarios explored without a preemption bound", 1)
			return
		}
		if c.R.Capped {
			return
		}
		if exploreBound(j.bound, 4*j.cap) {
			c.Count(fmt.Sprintf("scenarios explored up to %d preemptions", j.bound), 1)
			return
		}
		if c.R.Capped {
			return
		}
		heavy[c]++
	}
	// too many choices even between preemptions: count every departure from a
	// default order
	j.depart = true
	ok := exploreBound(j.bound, 0)
	reverse = true
	if ok && exploreBound(j.bound, 0) {
		c.Count(fmt.Sprintf("scenarios explored up to %d departures from first-come and last-come order", j.bound), 1)
	}
}

func oneSchedule(c *rt.C, sc *Scn, j judge, x *vsync.Sched, outs []*outcome, matched map[string][][]int) {
	st := fresh(sc)
	n := 0
	for _, p := range sc.Threads {
		n += len(p)
	}
	res := make([][]Obs, n+len(sc.Final))
	ops := make([][]vsync.Op, len(sc.Threads))
	bodies := make([]func(), len(sc.Threads))
	b := 0
	for t, p := range sc.Threads {
		t, p, b0 := t, p, b
		ops[t] = make([]vsync.Op, len(p))
		bodies[t] = func() {
			for i, a := range p {
				o := &ops[t][i]
				o.Thread, o.Index = t, i
				vsync.Begin(o)
				res[b0+i] = a.F(st)
				vsync.End(o)
			}
		}
		b += len(p)
	}
	if x.POR {
		x.Objs = syncObjs(st)
		x.NoClock = !j.lin || j.apart
	}
	races := vsync.RaceErrors()
	x.Run(bodies)
	if x.Pruned {
		c.R.Transitions += int64(x.Steps)
		c.Count("schedules cut short (equivalent to an explored one)", 1)
		return
	}
	c.R.Traces++
	c.R.States += int64(x.Decisions())
	c.R.Transitions += int64(x.Steps)
	if int64(x.Steps) > c.R.MaxDepth {
		c.R.MaxDepth = int64(x.Steps)
	}
	if x.Diverged {
		c.Count("schedules that did not replay", 1)
		return
	}
	if x.Overrun {
		c.Count("schedules cut at the step limit", 1)
		return
	}
	if x.Panicked != nil {
		if rt.Stopped(x.Panicked) {
			panic(x.Panicked)
		}
		if j.lin {
			c.Violate(sc.Name+"/panic", fmt.Sprintf("concurrent calls panic (they do not when made one at a time): %v", x.Panicked), append(schedTrace(x), strings.Split(x.Stack, "\n")...))
		}
		return
	}
	if j.race {
		c.R.Evals++
		if vsync.RaceErrors() > races {
			c.Violate(sc.Name+"/race", sc.Name+": data race: "+raceHead(), append(schedTrace(x), raceText()...))
		}
	}
	if x.Deadlock {
		c.Count("deadlocked schedules", 1)
		if j.dead {
			var w []string
			for _, e := range x.Blocked {
				w = append(w, fmt.Sprintf("T%d in %s", e.T, e.What))
			}
			c.Violate(sc.Name+"/deadlock", fmt.Sprintf("%s: deadlock: %s", sc.Name, strings.Join(w, ", ")), append(threadsOf(sc), schedTrace(x)...))
		}
		return
	}
	ok, why := alone(func() {
		for i, a := range sc.Final {
			res[n+i] = a.F(st)
		}
	})
	c.R.Evals++
	if !ok {
		if j.dead && strings.HasPrefix(why, "blocks") {
			c.Violate(sc.Name+"/left-locked", fmt.Sprintf("%s: after all threads ended a call %s", sc.Name, why), append(threadsOf(sc), schedTrace(x)...))
		}
		if j.lin && strings.HasPrefix(why, "panic") {
			c.Violate(sc.Name+"/panic", fmt.Sprintf("%s: a call after the concurrent ones: %s", sc.Name, why), append(threadsOf(sc), schedTrace(x)...))
		}
		return
	}
	if sc.Check != nil {
		if msg := sc.Check(st, res); msg != "" {
			c.Violate(sc.Name+"/rule", sc.Name+": "+msg, append(fmtRes(sc, res), schedTrace(x)...))
		}
	}
	if !j.lin {
		return
	}
	key := resKey(res)
	orders, seen := matched[key]
	if !seen {
		for _, o := range outs {
			if sameRes(o.res, res) {
				orders = append(orders, o.orders...)
			}
		}
		matched[key] = orders
		c.Outcome(sc.Name + key)
	}
	for _, o := range orders {
		if j.apart || fits(o, ops) {
			return
		}
	}
	desc := "no one-at-a-time order of the calls gives these results"
	if len(orders) > 0 {
		desc = "every one-at-a-time order that gives these results contradicts the real-time order of the calls"
	}
	tr := fmtRes(sc, res)
	for t := range ops {
		for i := range ops[t] {
			tr = append(tr, fmt.Sprintf("thread %d call %d active during [%d, %d]", t, i, ops[t][i].Call, ops[t][i].Ret))
		}
	}
	c.Violate(sc.Name+"/linearizability", sc.Name+": "+desc, append(tr, schedTrace(x)...))
}

func threadsOf(sc *Scn) []string {
	var out []string
	for t, p := range sc.Threads {
		var n []string
		for _, a := range p {
			n = append(n, a.Name)
		}
		out = append(out, fmt.Sprintf("T%d: %s", t, strings.Join(n, "; ")))
	}
	return out
}

// raceText returns the race detector's report.
func raceText() []string {
	p := os.Getenv("ZZ_RACELOG")
	if p == "" {
		return nil
	}
	b, _ := os.ReadFile(fmt.Sprintf("%s.%d", p, os.Getpid()))
	ls := strings.Split(string(b), "\n")
	if len(ls) > 60 {
		ls = ls[len(ls)-60:]
	}
	return ls
}

func raceHead() string {
	var fs []string
	for _, l := range raceText() {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "github.com/alexander-yu/stream/") && !strings.Contains(l, "zzverif") {
			l = strings.TrimPrefix(l, "github.com/alexander-yu/stream/")
			if i := strings.Index(l, "()"); i > 0 {
				l = l[:i]
			}
			fs = append(fs, l)
		}
	}
	sort.Strings(fs)
	var u []string
	for i, f := range fs {
		if i == 0 || fs[i-1] != f {
			u = append(u, f)
		}
	}
	if len(u) > 6 {
		u = u[:6]
	}
	return strings.Join(u, ", ")
}
