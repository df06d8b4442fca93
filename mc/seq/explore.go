//go:build go1.22

package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/alexander-yu/stream/zzverif/rt"
)

// Step is one operation of a history: a push of a value (or tuple), or a clear.
type Step struct {
	Clear bool
	X     []float64
}

func (s Step) String() string {
	if s.Clear {
		return "Clear()"
	}
	p := make([]string, len(s.X))
	for i, x := range s.X {
		p[i] = strconv.FormatFloat(x, 'g', -1, 64)
	}
	return "Push(" + strings.Join(p, ",") + ")"
}

func traceStr(h []Step) []string {
	r := []string{}
	if len(h) > 400 {
		r = append(r, fmt.Sprintf("(%d earlier operations)", len(h)-400))
		h = h[len(h)-400:]
	}
	for _, s := range h {
		r = append(r, s.String())
	}
	return r
}

func shortTrace(h []Step) string {
	t := traceStr(h)
	if len(t) > 40 {
		t = append(t[:40:40], "...")
	}
	return strings.Join(t, " ")
}

func fmtObs(o Obs) string {
	if o.Err {
		return "error"
	}
	return strconv.FormatFloat(o.V, 'g', 10, 64)
}

func fmtExp(e Exp) string {
	switch e.Mode {
	case 0:
		return "(not defined)"
	case 1:
		return "an error"
	}
	return fmt.Sprintf("%s (+-%.3g)", strconv.FormatFloat(e.V, 'g', 17, 64), e.Tol)
}

// Run is a live object together with the history it has seen.
type Run struct {
	c     *rt.C
	k     *Kind
	o     *Obj
	hist  [][]float64 // pushes since the last clear
	steps []Step      // everything, for the report
}

func newRun(c *rt.C, k *Kind) *Run {
	r := &Run{c: c, k: k}
	var o *Obj
	var err error
	r.guard("construction", func() { o, err = k.Mk() })
	if err != nil {
		c.Violate(k.Name+"/construct", fmt.Sprintf("constructing %s with valid arguments failed: %v", k.Name, err), nil)
	}
	r.o = o
	return r
}

// guard turns a panic of the implementation into a violation.
func (r *Run) guard(what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			if rt.Stopped(e) {
				panic(e)
			}
			r.c.Violate(r.k.Name+"/panic", fmt.Sprintf("%s: %s panicked: %v", r.k.Name, what, e), traceStr(r.steps))
		}
	}()
	f()
}

// Do applies one step; a push must succeed.
func (r *Run) Do(s Step) {
	rt.Tick()
	r.steps = append(r.steps, s)
	r.c.R.Transitions++
	r.guard(s.String(), func() {
		if s.Clear {
			r.o.Clear()
			r.hist = r.hist[:0:0]
			return
		}
		if err := r.o.Push(s.X); err != nil {
			r.c.Violate(r.k.Name+"/pusherr", fmt.Sprintf("%s: %s failed: %v", r.k.Name, s, err), traceStr(r.steps))
		}
		r.hist = append(r.hist, s.X)
	})
}

// Look makes every observation.
func (r *Run) Look() []Obs {
	out := make([]Obs, len(r.o.Obs))
	r.guard("query", func() {
		for i, f := range r.o.Obs {
			v, err := f()
			out[i] = Obs{v, err != nil}
		}
	})
	return out
}

// Check compares every observation with the reference model.
func (r *Run) Check() []Obs {
	got := r.Look()
	r.against(got, r.k.Ref(r.hist))
	return got
}

func (r *Run) against(got []Obs, want []Exp) {
	for i := range got {
		r.c.R.Evals++
		ok, ratio := match(got[i], want[i])
		if ratio > 0 {
			r.c.ErrRatio(r.k.Family, ratio)
		}
		if !ok {
			r.c.Violate(r.k.Name+"/"+r.k.ObsNm[i], fmt.Sprintf("%s.%s = %s, want %s", r.k.Name, r.k.ObsNm[i], fmtObs(got[i]), fmtExp(want[i])), traceStr(r.steps))
		}
	}
}

func obsKey(o []Obs) string {
	var b strings.Builder
	for _, x := range o {
		if x.Err {
			b.WriteString("E,")
		} else {
			b.WriteString(strconv.FormatUint(math.Float64bits(x.V), 36))
			b.WriteByte(',')
		}
	}
	return b.String()
}

func pushes(arity int, vals []float64) []Step {
	// arity 1: one push per value; arity >1: every tuple of values
	n := 1
	for i := 0; i < arity; i++ {
		n *= len(vals)
	}
	out := make([]Step, n)
	for i := range out {
		x := make([]float64, arity)
		q := i
		for j := arity - 1; j >= 0; j-- {
			x[j] = vals[q%len(vals)]
			q /= len(vals)
		}
		out[i] = Step{X: x}
	}
	return out
}

func withClear(s []Step) []Step { return append(append([]Step{}, s...), Step{Clear: true}) }

// allSequences runs every sequence of exactly `depth` steps over the alphabet
// on a fresh object and checks every observation after every step that no
// earlier sequence has already checked (so each distinct history is checked
// exactly once). Sequences starting with one of the first steps in `first`
// only (nil = all) allow splitting into jobs.
func allSequences(c *rt.C, k *Kind, alpha []Step, depth int, first int) {
	idx := make([]int, depth)
	if first >= 0 {
		idx[0] = first
	}
	from := 0
	leaf := int64(0)
	for {
		if leaf&255 == 0 && c.Expired() {
			c.Cap(fmt.Sprintf("%d sequences of length %d done", leaf, depth))
			return
		}
		r := newRun(c, k)
		if leaf == 0 {
			c.Label(func() string { return k.Name + ": " + shortTrace(r.steps) })
			r.Check()
		} else {
			c.Label(func() string { return k.Name + ": " + shortTrace(r.steps) })
		}
		for d := 0; d < depth; d++ {
			r.Do(alpha[idx[d]])
			if d >= from {
				o := r.Check()
				c.R.States++
				if d == depth-1 {
					c.Outcome(obsKey(o))
				}
			}
		}
		leaf++
		c.R.Traces++
		if leaf == 1 || leaf == 777 {
			c.Sample(shortTrace(r.steps))
		}
		// next
		d := depth - 1
		for d >= 0 {
			idx[d]++
			if idx[d] < len(alpha) {
				break
			}
			idx[d] = 0
			d--
		}
		if d < 0 || (first >= 0 && d == 0) {
			break
		}
		from = d
	}
	if int64(depth) > c.R.MaxDepth {
		c.R.MaxDepth = int64(depth)
	}
}

// deBruijn returns a cyclic sequence over k symbols containing every word of length n once.
func deBruijn(k, n int) []int {
	a := make([]int, k*n)
	var seq []int
	var db func(t, p int)
	db = func(t, p int) {
		if t > n {
			if n%p == 0 {
				seq = append(seq, a[1:p+1]...)
			}
			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for j := a[t-p] + 1; j < k; j++ {
			a[t] = j
			db(t+1, t)
		}
	}
	db(1, 1)
	return seq
}

// everyWindow pushes one long stream containing every word of length n over the
// alphabet, checking after every push: every window content of size n (and the
// n-1 pushes before it) occurs in a stream far longer than the window.
func everyWindow(c *rt.C, k *Kind, alpha []Step, n int, every int) {
	seq := deBruijn(len(alpha), n)
	seq = append(seq, seq[:n-1]...)
	r := newRun(c, k)
	c.Label(func() string { return fmt.Sprintf("%s: de Bruijn stream step %d", k.Name, len(r.steps)) })
	for i, s := range seq {
		if i&255 == 0 && c.Expired() {
			c.Cap(fmt.Sprintf("%d of %d pushes", i, len(seq)))
			return
		}
		r.Do(alpha[s])
		if i%every == 0 {
			o := r.Check()
			c.R.States++
			c.Outcome(obsKey(o))
		}
		if k.Window > 0 && len(r.hist) > 4*k.Window+4*n+64 && !needsAll(k) {
			// the reference only needs the window
			r.hist = append([][]float64{}, r.hist[len(r.hist)-(k.Window+k.Lag+2):]...)
		}
	}
	c.R.Traces++
	c.R.MaxDepth = int64(len(seq))
	c.Sample(fmt.Sprintf("stream of %d pushes containing all %d-letter words over %v", len(seq), n, alpha))
}

// needsAll: families whose tolerance or reference depends on the whole history.
func needsAll(k *Kind) bool {
	switch k.Family {
	case "Min", "Max", "Quantile", "Median", "IQR", "HeapMedian":
		return false
	}
	return true
}

// lasso pushes prefix then loop repeatedly until n steps, checking every `every` steps.
func lasso(c *rt.C, k *Kind, prefix, loop []Step, n, every int) {
	r := newRun(c, k)
	c.Label(func() string { return fmt.Sprintf("%s: lasso %v (%v)* step %d", k.Name, prefix, loop, len(r.steps)) })
	i := 0
	for ; i < n; i++ {
		var s Step
		if i < len(prefix) {
			s = prefix[i]
		} else {
			s = loop[(i-len(prefix))%len(loop)]
		}
		r.Do(s)
		if i%every == 0 || i >= n-2 {
			r.Check()
			c.R.States++
		}
		if k.Window > 0 && len(r.hist) > 4*k.Window+64 && !needsAll(k) {
			r.hist = append([][]float64{}, r.hist[len(r.hist)-(k.Window+k.Lag+2):]...)
		}
	}
	c.Outcome(obsKey(r.Look()))
	c.R.Traces++
	if int64(n) > c.R.MaxDepth {
		c.R.MaxDepth = int64(n)
	}
}

// lassos enumerates every prefix of length <= pl and every loop of length 1..ll.
func lassos(c *rt.C, k *Kind, alpha []Step, pl, ll, n, every int) {
	var words func(l int) [][]Step
	words = func(l int) [][]Step {
		if l == 0 {
			return [][]Step{nil}
		}
		var out [][]Step
		for _, w := range words(l - 1) {
			for _, a := range alpha {
				out = append(out, append(append([]Step{}, w...), a))
			}
		}
		return out
	}
	cnt := 0
	for p := 0; p <= pl; p++ {
		for l := 1; l <= ll; l++ {
			for _, pw := range words(p) {
				for _, lw := range words(l) {
					if c.Expired() {
						c.Cap(fmt.Sprintf("%d lassos done", cnt))
						return
					}
					lasso(c, k, pw, lw, n, every)
					cnt++
				}
			}
		}
	}
	c.Sample(fmt.Sprintf("%d ultimately periodic streams of %d pushes: prefixes <= %d, loops <= %d over %v", cnt, n, pl, ll, alpha))
}

// pattern generators for long streams ---------------------------------------

type pattern struct {
	name string
	f    func(i int) float64
}

func patterns() []pattern {
	return []pattern{
		{"asc", func(i int) float64 { return float64(i) }},
		{"desc", func(i int) float64 { return float64(-i) }},
		{"const", func(i int) float64 { return 3 }},
		{"alt", func(i int) float64 { return float64(i%2)*2 - 1 }},
		{"saw7", func(i int) float64 { return float64(i % 7) }},
		{"rsaw5", func(i int) float64 { return float64(5 - i%5) }},
		{"organ", func(i int) float64 {
			j := i % 64
			if j >= 32 {
				j = 63 - j
			}
			return float64(j)
		}},
		{"zigzag", func(i int) float64 { return float64((i*37)%101) - 50 }},
		{"step", func(i int) float64 { return float64((i / 29) % 3) }},
		{"spikes", func(i int) float64 {
			if i%23 == 0 {
				return 100
			}
			if i%19 == 0 {
				return -100
			}
			return float64(i % 3)
		}},
		{"lcg", func(i int) float64 {
			x := uint32(i)*2654435761 + 12345
			x ^= x >> 13
			x *= 2246822519
			x ^= x >> 16
			return float64(x%1000) / 8
		}},
		{"descstep", func(i int) float64 { return float64(-(i / 3)) }},
		{"ascstep", func(i int) float64 { return float64(i / 3) }},
		{"revperiod", func(i int) float64 { return float64((i ^ 0x55) % 97) }},
	}
}

// longStream runs a patterned stream; joint kinds get decorrelated columns.
func longStream(c *rt.C, k *Kind, p pattern, n int, every int, clearAt int) {
	r := newRun(c, k)
	c.Label(func() string { return fmt.Sprintf("%s: pattern %s step %d", k.Name, p.name, len(r.steps)) })
	for i := 0; i < n; i++ {
		x := make([]float64, k.Arity)
		for j := range x {
			x[j] = p.f(i)
			if j > 0 {
				x[j] = p.f(i*(j+1)+5*j) - float64(j)
			}
		}
		r.Do(Step{X: x})
		if i%every == 0 || (k.Window > 0 && (i%k.Window < 1)) || i == n-1 {
			r.Check()
			c.R.States++
			if c.Expired() {
				c.Cap(fmt.Sprintf("pattern %s stopped at %d of %d", p.name, i, n))
				return
			}
		}
		if clearAt > 0 && i%clearAt == clearAt-1 {
			r.Do(Step{Clear: true})
			r.Check()
		}
		if k.Window > 0 && len(r.hist) > 4*k.Window+64 && !needsAll(k) {
			r.hist = append([][]float64{}, r.hist[len(r.hist)-(k.Window+k.Lag+2):]...)
		}
		if len(r.steps) > 2000 {
			r.steps = append([]Step{}, r.steps[len(r.steps)-1000:]...)
		}
	}
	c.R.Traces++
	c.Outcome(obsKey(r.Look()))
	if int64(n) > c.R.MaxDepth {
		c.R.MaxDepth = int64(n)
	}
}
