//go:build go1.22

package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"

	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/quantile/ost/avl"
	"github.com/alexander-yu/stream/quantile/ost/rb"
	"github.com/alexander-yu/stream/quantile/skiplist"
	"github.com/alexander-yu/stream/zzverif/rt"
)

func checks() []*rt.Check { return []*rt.Check{p25()} }

// cost is the work of one stretch of calls.
type cost struct {
	max, sum, n int64
	what        string
}

func (c *cost) add(d int64, what func() string) {
	c.sum += d
	c.n++
	if d > c.max {
		c.max, c.what = d, what()
	}
}

func (c *cost) avg() float64 {
	if c.n == 0 {
		return 0
	}
	return float64(c.sum) / float64(c.n)
}

// costs of the calls of one object: push, then every query.
type costs struct {
	push cost
	obs  []cost
}

// family is a metric whose size parameter varies.
type family struct {
	name string
	// mk builds the metric of the given size; global ones ignore it.
	mk           func(size int) *Kind
	global       bool // size is the length of the stream
	small, large int
	// grow is how much the work of a push (a query) may grow from small to large.
	grow, growObs func(small, large float64) float64
	amort         bool // on average over the stretch, not for every call
	few           bool // the work cannot depend on the values: a few streams only
}

func flat(_, _ float64) float64 { return 1 }
func logs(a, b float64) float64 { return math.Log2(b+2) / math.Log2(a+2) }
func pow(e float64) func(a, b float64) float64 {
	return func(a, b float64) float64 { return math.Pow(b/a, e) }
}

type streamOf struct {
	name  string
	clear int // clear every so many pushes
	at    func(i int, x []float64)
}

// streams: patterns and every loop of length <= n over three values.
func streams(arity, n int) []streamOf {
	var out []streamOf
	for _, p := range patterns() {
		p := p
		out = append(out, streamOf{name: "pattern " + p.name, at: func(i int, x []float64) {
			for j := range x {
				x[j] = p.f(i)
				if j > 0 {
					x[j] = p.f(i*(j+1)+5*j) - float64(j)
				}
			}
		}})
	}
	// values that make every window content of length 8 over two values appear
	seq := deBruijn2(8)
	out = append(out, streamOf{name: "every content of 8 over two values", at: func(i int, x []float64) {
		for j := range x {
			x[j] = float64(seq[(i+3*j)%len(seq)])
		}
	}})
	for _, big := range []int{64, 700} {
		big := big
		out = append(out, streamOf{name: fmt.Sprintf("ramps of %d", big), at: func(i int, x []float64) {
			for j := range x {
				x[j] = float64((i + j) % big)
			}
		}}, streamOf{name: fmt.Sprintf("falling ramps of %d", big), at: func(i int, x []float64) {
			for j := range x {
				x[j] = -float64((i + j) % big)
			}
		}}, streamOf{name: fmt.Sprintf("mountains of %d", big), at: func(i int, x []float64) {
			for j := range x {
				m := (i + j) % (2 * big)
				if m > big {
					m = 2*big - m
				}
				x[j] = float64(m)
			}
		}}, streamOf{name: fmt.Sprintf("halves of %d", big), at: func(i int, x []float64) {
			// outside in
			for j := range x {
				m := (i + j) % big
				if m&1 == 0 {
					x[j] = float64(m)
				} else {
					x[j] = float64(2*big - m)
				}
			}
		}})
	}
	for _, l := range loopsOver(allStepsN(arity, []float64{0, 1, 2}), n) {
		l := l
		out = append(out, streamOf{name: fmt.Sprintf("repetition of %v", l), at: func(i int, x []float64) { copy(x, l[i%len(l)].X) }})
	}
	return out
}

func allStepsN(arity int, vals []float64) []Step {
	if arity > 2 {
		return vsteps(arity, vals...)
	}
	return allSteps(&Kind{Arity: arity}, vals)
}

func deBruijn2(n int) []int {
	a := make([]int, 2*n)
	var seq []int
	var db func(t, p int)
	db = func(t, p int) {
		if t > n {
			if n%p == 0 {
				seq = append(seq, a[1:p+1]...)
			}
			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for j := a[t-p] + 1; j < 2; j++ {
			a[t] = j
			db(t+1, t)
		}
	}
	db(1, 1)
	return seq
}

// measure runs the stream and returns the work of the calls after the warm-up.
func measure(c *rt.C, k *Kind, st streamOf, warm, n int) *costs {
	o, err := k.Mk()
	if err != nil {
		return nil
	}
	r := &costs{obs: make([]cost, len(o.Obs))}
	ok := true
	func() {
		defer func() {
			if recover() != nil {
				ok = false // not judged here
			}
		}()
		for i := 0; i < warm+n; i++ {
			if i&255 == 0 {
				rt.Tick()
			}
			x := make([]float64, k.Arity)
			st.at(i, x)
			s := steps()
			err := o.Push(x)
			d := steps() - s
			if err != nil {
				ok = false
				return
			}
			c.R.Transitions++
			if i < warm {
				continue
			}
			r.push.add(d, func() string { return fmt.Sprintf("push %d of %v", i, x) })
			if i&3 != 0 && n > 400 {
				continue
			}
			for j, f := range o.Obs {
				s := steps()
				_, _ = f()
				d := steps() - s
				r.obs[j].add(d, func() string { return fmt.Sprintf("%s after push %d", k.ObsNm[j], i) })
			}
		}
	}()
	c.R.Traces++
	c.R.States += int64(n)
	if !ok {
		return nil
	}
	return r
}

func runFamily(c *rt.C, f family, loop int) {
	judgeOne := func(c *rt.C, what string, st streamOf, amort bool, worst float64, got *cost, g float64) {
		v := float64(got.max)
		if amort {
			v = got.avg()
		}
		slack := 12.
		if amort {
			slack = 6
		}
		factor := 1.6
		if g == 1 {
			factor = 1.25
		}
		limit := factor*g*worst + slack
		c.ErrRatio("work/limit", v/limit)
		if os.Getenv("ZZ_DBG") != "" {
			c.ErrRatio(f.name+" "+what, v/limit)
		}
		c.R.Evals++
		if v <= limit {
			return
		}
		kind := "at most"
		if amort {
			kind = "on average"
		}
		c.Violate(f.name+"/"+what, fmt.Sprintf("%s, %s: size %d takes %s %.1f steps over all streams, size %d takes %.1f; allowed growth %.2f", f.name, what, f.small, kind, worst, f.large, v, g),
			[]string{"stream: " + st.name, "worst call: " + got.what})
	}
	run := func(size int, st streamOf) *costs {
		k := f.mk(size)
		c.Label(func() string { return fmt.Sprintf("%s size %d under %s", f.name, size, st.name) })
		warm, n := 2*(k.Window+k.Lag)+40, 2*(k.Window+k.Lag)+100
		if f.global {
			warm, n = size, size/2+50
		}
		return measure(c, k, st, warm, n)
	}
	var worst costs
	ss := streams(f.mk(f.small).Arity, loop)
	if f.few {
		ss = []streamOf{ss[0], ss[2], ss[7], ss[9]}
	}
	avgPush := 0.
	var avgObs []float64
	for _, st := range ss {
		r := run(f.small, st)
		if r == nil {
			continue
		}
		worst.push.max = max(worst.push.max, r.push.max)
		avgPush = max(avgPush, r.push.avg())
		for j := range r.obs {
			if len(worst.obs) <= j {
				worst.obs = append(worst.obs, cost{})
				avgObs = append(avgObs, 0)
			}
			worst.obs[j].max = max(worst.obs[j].max, r.obs[j].max)
			avgObs[j] = max(avgObs[j], r.obs[j].avg())
		}
	}
	if f.few { // other sizes have other queries
		m, av := cost{}, 0.
		for j := range worst.obs {
			m.max = max(m.max, worst.obs[j].max)
			av = max(av, avgObs[j])
		}
		for j := range worst.obs {
			worst.obs[j].max, avgObs[j] = m.max, av
		}
		for j := len(worst.obs); j < 200; j++ {
			worst.obs, avgObs = append(worst.obs, m), append(avgObs, av)
		}
	}
	nms := f.mk(f.large).ObsNm
	a, b := float64(f.small), float64(f.large)
	for _, st := range ss {
		if c.Expired() {
			c.Cap("time")
			return
		}
		r := run(f.large, st)
		if r == nil {
			continue
		}
		w := float64(worst.push.max)
		if f.amort {
			w = avgPush
		}
		judgeOne(c, "Push", st, f.amort, w, &r.push, f.grow(a, b))
		for j := range r.obs {
			if j >= len(worst.obs) {
				break
			}
			w := float64(worst.obs[j].max)
			if f.amort {
				w = avgObs[j]
			}
			judgeOne(c, "query "+nms[j], st, f.amort, w, &r.obs[j], f.growObs(a, b))
		}
		c.Outcome(fmt.Sprint(f.name, st.name, r.push.max))
	}
	c.Sample(fmt.Sprintf("%s: sizes %d and %d, worst push %d steps at the small size", f.name, f.small, f.large, worst.push.max))
}

func skipKind(w int) implCfg {
	return implCfg{"skiplist", func() []quantile.Option {
		return []quantile.Option{quantile.ImplOption(quantile.SkipList, skiplist.RandOption(rand.New(rand.NewSource(int64(w)+7))))}
	}}
}

func families(tier string) []family {
	L := pick(tier, 256, 2048)
	LL := pick(tier, 1024, 8192)
	var fs []family
	win := func(name string, mk func(w int) *Kind) {
		fs = append(fs, family{name: name + " by window", mk: mk, small: 16, large: L, grow: flat, growObs: flat})
	}
	glob := func(name string, mk func() *Kind) {
		fs = append(fs, family{name: name + " by stream", mk: func(int) *Kind { return mk() }, global: true, small: 64, large: 4 * L, grow: flat, growObs: flat})
	}
	for _, mx := range []bool{false, true} {
		mx := mx
		nm := []string{"Min", "Max"}[b2i(mx)]
		fs = append(fs, family{name: nm + " by window", mk: func(w int) *Kind { return kMinMax(mx, w, false) }, small: 16, large: L, grow: flat, growObs: flat, amort: true},
			family{name: nm + " by stream", mk: func(int) *Kind { return kMinMax(mx, 0, true) }, global: true, small: 64, large: 4 * L, grow: flat, growObs: flat, amort: true},
			family{name: nm + "(w=8) by stream", mk: func(int) *Kind { return kMinMax(mx, 8, false) }, global: true, small: 64, large: 4 * L, grow: flat, growObs: flat, amort: true})
	}
	mom := map[string]func(w int) *Kind{
		"Mean": kMean, "Std": kStd, "Skewness": kSkew, "Kurtosis": kKurt, "Cov": kCov, "Corr": kCorr,
		"Moment2": func(w int) *Kind { return kMomentK(2, w) }, "Moment5": func(w int) *Kind { return kMomentK(5, w) },
		"Core{}":      func(w int) *Kind { return kCore(nil, w, 0) },
		"Core{2,4,7}": func(w int) *Kind { return kCore([]int{2, 4, 7}, w, 0) },
		"JCore{11,20,02}": func(w int) *Kind {
			return kJCore([][]int{{1, 1}, {2, 0}, {0, 2}}, 0, w, 0)
		},
		"JCore{21,12}": func(w int) *Kind { return kJCore([][]int{{2, 1}, {1, 2}}, 0, w, 0) },
		"JCore{111}":   func(w int) *Kind { return kJCore([][]int{{1, 1, 1}}, 0, w, 0) },
		"JCore{}3":     func(w int) *Kind { return kJCore(nil, 3, w, 0) },
	}
	for _, lag := range []int{0, 1, 7} {
		lag := lag
		mom[fmt.Sprintf("Autocov(lag=%d)", lag)] = func(w int) *Kind { return kAuto(false, lag, w, false) }
		mom[fmt.Sprintf("Autocorr(lag=%d)", lag)] = func(w int) *Kind { return kAuto(true, lag, w, false) }
	}
	for _, nm := range keysOf(mom) {
		mk := mom[nm]
		win(nm, mk)
		glob(nm, func() *Kind { return mk(0) })
		glob(nm+"(w=8)", func() *Kind { return mk(8) })
	}
	for _, cr := range []bool{false, true} {
		cr := cr
		nm := []string{"Autocov", "Autocorr"}[b2i(cr)]
		fs = append(fs, family{name: nm + " by lag", mk: func(l int) *Kind { return kAuto(cr, l, 0, false) }, small: 16, large: 4 * L, grow: flat, growObs: flat},
			family{name: nm + "(w=9) by lag", mk: func(l int) *Kind { return kAuto(cr, l, 9, false) }, small: 16, large: 4 * L, grow: flat, growObs: flat})
	}
	ewm := []*Kind{kEWMA(0.3), kEWMMoment(2, 0.3), kEWMMoment(5, 0.3), kEWMStd(0.3), kCore([]int{3, 4}, 0, 0.3), kEWMCov(0.3), kEWMCorr(0.3), kJCore([][]int{{2, 1}, {1, 2}}, 0, 0, 0.3)}
	for _, k := range append(ewm, globals()...) {
		k := k
		glob(k.Name, func() *Kind { return k })
	}
	glob("GlobalCov", kGlobalCov)
	glob("GlobalCorr", kGlobalCorr)
	// by the power and the tuples
	for _, w := range []int{0, 5} {
		w := w
		for _, d := range []float64{0, 0.3} {
			d := d
			if w > 0 && d > 0 {
				continue
			}
			nm := fmt.Sprintf("(w=%d,decay=%g)", w, d)
			fs = append(fs, family{name: "Core" + nm + " by power", mk: func(k int) *Kind { return kCore([]int{k}, w, d) }, small: 8, large: 28, grow: pow(2), growObs: flat},
				family{name: "JCore" + nm + " by tuple size", mk: func(k int) *Kind { return kJCore([][]int{{k, k}}, 0, w, d) }, small: 3, large: 9, grow: func(a, b float64) float64 { return math.Pow((b+1)/(a+1), 4) }, growObs: flat, few: true},
				family{name: "JCore" + nm + " by number of tuples", mk: func(n int) *Kind {
					var ts [][]int
					for i := 0; i < 5; i++ {
						for j := i + 1; j < 5 && len(ts) < n; j++ {
							t := make([]int, 5)
							t[i], t[j] = 1, 1
							ts = append(ts, t)
						}
					}
					return kJCore(ts, 0, w, d)
				}, small: 2, large: 10, grow: pow(1), growObs: flat, few: true},
				family{name: "JCore" + nm + " by number of variables", mk: func(n int) *Kind {
					t := make([]int, n)
					t[0], t[n-1] = 2, 2
					return kJCore([][]int{t}, 0, w, d)
				}, small: 3, large: 12, grow: pow(1), growObs: pow(1), few: true})
			if w > 0 || d == 0 {
				fs = append(fs, family{name: fmt.Sprintf("Moment(w=%d) by power", w), mk: func(k int) *Kind { return kMomentK(k, w) }, small: 8, large: 28, grow: pow(2), growObs: flat, few: true})
			} else {
				fs = append(fs, family{name: "EWMMoment by power", mk: func(k int) *Kind { return kEWMMoment(k, 0.3) }, small: 8, large: 28, grow: pow(2), growObs: flat})
			}
		}
	}
	// quantiles
	ims := impls()
	for _, im := range []implCfg{ims[0], ims[1], ims[2]} {
		im := im
		for nm, mk := range map[string]func(w int) *Kind{
			"Quantile/" + im.name: func(w int) *Kind { return kQuantile(w, im, 0, phis[:6]) },
			"Median/" + im.name:   func(w int) *Kind { return kMedian(w, im) },
			"IQR/" + im.name:      func(w int) *Kind { return kIQR(w, im) },
		} {
			mk := mk
			fs = append(fs, family{name: nm + " by window", mk: mk, small: 32, large: LL, grow: logs, growObs: logs},
				family{name: nm + " by stream", mk: func(int) *Kind { return mk(0) }, global: true, small: 64, large: 2 * LL, grow: logs, growObs: logs})
		}
	}
	fs = append(fs, family{name: "Median/skiplist by window", mk: func(w int) *Kind { return kMedian(w, skipKind(w)) }, small: 64, large: LL, grow: logs, growObs: logs, amort: true},
		family{name: "Median/skiplist by stream", mk: func(w int) *Kind { return kMedian(0, skipKind(w)) }, global: true, small: 64, large: 2 * LL, grow: logs, growObs: logs, amort: true},
		family{name: "HeapMedian by window", mk: func(w int) *Kind { return kHeapMedian(w, false) }, small: 32, large: LL, grow: logs, growObs: flat},
		family{name: "HeapMedian by stream", mk: func(w int) *Kind { return kHeapMedian(0, true) }, global: true, small: 64, large: 2 * LL, grow: logs, growObs: flat})
	return fs
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func keysOf(m map[string]func(w int) *Kind) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	// insertion sort: the sort package is instrumented
	for i := range ks {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}

// trees measures the order-statistic structures directly: n values added in a
// pattern, then Select and Rank of everything, then removals in several orders.
func trees(c *rt.C, name string, mk func() order.Statistic, amort bool, small, large int) {
	type meas struct{ add, rem, sel, rank cost }
	run := func(n int, p streamOf, order int) *meas {
		s := mk()
		m := &meas{}
		ok := true
		func() {
			defer func() {
				if recover() != nil {
					ok = false
				}
			}()
			vals := make([]float64, n)
			for i := range vals {
				p.at(i, vals[i:i+1])
				a := steps()
				s.Add(vals[i])
				d := steps() - a
				c.R.Transitions++
				if i >= n/2 {
					m.add.add(d, func() string { return fmt.Sprintf("Add %d", i) })
				}
			}
			rt.Tick()
			for i := 0; i < n; i++ {
				a := steps()
				s.Select(i)
				b := steps()
				s.Rank(vals[i])
				m.sel.add(b-a, func() string { return fmt.Sprintf("Select(%d)", i) })
				m.rank.add(steps()-b, func() string { return fmt.Sprintf("Rank(%v)", vals[i]) })
				c.R.Transitions += 2
			}
			for i := 0; i < n/2; i++ {
				j := i
				switch order {
				case 1:
					j = n - 1 - i
				case 2:
					j = (i * 2) % n
				}
				a := steps()
				s.Remove(vals[j])
				d := steps() - a
				c.R.Transitions++
				m.rem.add(d, func() string { return fmt.Sprintf("Remove(%v)", vals[j]) })
			}
			for i := 0; i < n/2; i++ {
				a := steps()
				s.Select(i)
				m.sel.add(steps()-a, func() string { return fmt.Sprintf("Select(%d) after removals", i) })
			}
		}()
		c.R.Traces++
		c.R.States += int64(n)
		if !ok {
			return nil
		}
		return m
	}
	val := func(x *cost) float64 {
		if amort {
			return x.avg()
		}
		return float64(x.max)
	}
	var worst [4]float64
	parts := func(m *meas) [4]*cost { return [4]*cost{&m.add, &m.rem, &m.sel, &m.rank} }
	nm := [4]string{"Add", "Remove", "Select", "Rank"}
	for _, n := range []int{small, large} {
		for _, st := range streams(1, 3) {
			for ord := 0; ord < 3; ord++ {
				if c.Expired() {
					c.Cap("time")
					return
				}
				c.Label(func() string { return fmt.Sprintf("%s size %d %s order %d", name, n, st.name, ord) })
				m := run(n, st, ord)
				if m == nil {
					continue
				}
				for i, x := range parts(m) {
					if n == small {
						worst[i] = max(worst[i], val(x))
						continue
					}
					g := logs(float64(small), float64(large))
					limit := 1.6*g*worst[i] + 12
					c.R.Evals++
					c.ErrRatio("work/limit", val(x)/limit)
					if val(x) > limit {
						c.Violate(name+"/"+nm[i], fmt.Sprintf("%s.%s takes %.1f steps with %d values and %.1f with %d; allowed growth %.2f", name, nm[i], worst[i], small, val(x), large, g),
							[]string{"values: " + st.name, fmt.Sprintf("removal order %d (0 first in first out, 1 last in first out, 2 every other)", ord), "worst call: " + x.what})
					}
				}
			}
		}
	}
	c.Outcome(name)
}

func loopLen(f family, tier string) int {
	switch f.mk(f.small).Arity {
	case 1:
		return pick(tier, 3, 4)
	case 2:
		return pick(tier, 1, 2)
	}
	return 1
}

func p25() *rt.Check {
	return &rt.Check{Property: "P25",
		Rule: "the code under check and the standard sort, slices and container packages are compiled with a counter at every function entry and loop iteration and for every element copied or created; every metric at a small and a large size (window, stream length, lag, power, tuples, variables) runs every stream pattern and every ultimately periodic stream up to the loop bound; the steps of each push and each query at the large size are compared with the worst of all streams at the small size times the growth that complexity.md documents (1, log, k^2, t d a^2)",
		Bounds: func(t string) string {
			return "windows 16 -> 256 (thorough 2048), streams 64 -> 1024 (8192), order statistics 32 -> 1024 (8192), powers 8 -> 28, tuples 2 -> 8, variables 3 -> 12, lags 16 -> 1024 (8192); 14 patterns, 8 ramps, every window content of 8 over two values, every loop of length <=3 (thorough 4; two variables: 1, thorough 2; more: 1) over 3 values"
		},
		Assumptions: []string{"constant factor 1.6 (1.25 where the documented growth is none) and 12 steps of slack: growth below that is not seen", "where the documentation says amortized (min, max), and for the randomised skip list, the average over the stretch is judged"},
		Jobs: func(tier string) []rt.Job {
			var js []rt.Job
			for _, f := range families(tier) {
				f := f
				js = append(js, rt.Job{Name: f.name, Run: func(c *rt.C) { runFamily(c, f, loopLen(f, tier)) }})
			}
			n := pick(tier, 1024, 8192)
			js = append(js,
				rt.Job{Name: "avl.Tree", Run: func(c *rt.C) { trees(c, "avl.Tree", func() order.Statistic { return &avl.Tree{} }, false, 32, n) }},
				rt.Job{Name: "rb.Tree", Run: func(c *rt.C) { trees(c, "rb.Tree", func() order.Statistic { return &rb.Tree{} }, false, 32, n) }},
				rt.Job{Name: "skiplist.SkipList", Run: func(c *rt.C) {
					trees(c, "skiplist.SkipList", func() order.Statistic {
						s, err := skiplist.New(skiplist.RandOption(rand.New(rand.NewSource(11))))
						must(err)
						return s
					}, true, 64, n)
				}})
			return js
		}}
}
