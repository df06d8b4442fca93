//go:build go1.22

package main

import (
	"fmt"
	"math"
	"runtime"
	"runtime/debug"

	"github.com/alexander-yu/stream/sample"
	"github.com/alexander-yu/stream/zzverif/rt"
)

// ---- P06 memory ------------------------------------------------------------

func heapNow(gcs int) int64 {
	var ms runtime.MemStats
	for ; gcs > 0; gcs-- {
		runtime.GC()
	}
	runtime.ReadMemStats(&ms)
	return int64(ms.HeapAlloc)
}

// grows feeds the object n1 warm-up operations and then measures the retained
// heap over two further stretches of n2 operations each; steady growth in both
// is a leak.
func grows(c *rt.C, name string, n1, n2 int, limit int64, step func(i int), what func() []string) {
	i := 0
	run := func(n int) {
		for e := i + n; i < e; i++ {
			if i&1023 == 0 {
				rt.Tick()
			}
			step(i)
		}
		c.R.Transitions += int64(n)
	}
	run(n1)
	a := heapNow(1)
	run(n2)
	b := heapNow(1)
	c.R.Evals++
	c.R.Traces++
	c.R.States++
	c.ErrRatio("growth/limit", float64(b-a)/float64(limit))
	if b-a <= limit {
		return
	}
	// a leak grows with the number of operations: each further stretch is twice
	// as long and must retain clearly more than the one before
	prev := heapNow(2)
	gs := []int64{max(prev-a, 1)}
	for n := 2 * n2; n <= 16*n2; n *= 2 {
		run(n)
		x := heapNow(2)
		g := x - prev
		prev = x
		if g <= limit || float64(g) < 1.3*float64(gs[len(gs)-1]) {
			return
		}
		gs = append(gs, g)
	}
	c.Violate(name+"/grows", fmt.Sprintf("%s retains more and more memory: %v bytes over stretches of %d x 1,2,4,8,16 operations after a warm-up of %d", name, gs, n2, n1), what())
}

func memPattern(c *rt.C, k *Kind, p pattern, n2, clearEvery int) {
	o, err := k.Mk()
	if err != nil {
		return
	}
	x := make([]float64, k.Arity)
	c.Label(func() string { return k.Name + " memory under " + p.name })
	dead := false
	grows(c, k.Name, 6*(k.Window+k.Lag)+600, n2, 6000, func(i int) {
		if dead {
			return
		}
		defer func() {
			if e := recover(); e != nil {
				dead = true // not judged here
			}
		}()
		for j := range x {
			x[j] = p.f(i)
			if j > 0 {
				x[j] = p.f(i*(j+1)+5*j) - float64(j)
			}
		}
		if clearEvery > 0 && i%clearEvery == clearEvery-1 {
			o.Clear()
		}
		_ = o.Push(append([]float64(nil), x...))
		if i%7 == 0 {
			for _, f := range o.Obs {
				_, _ = f()
			}
		}
	}, func() []string {
		return []string{"stream pattern " + p.name, fmt.Sprintf("clear every %d operations (0 = never)", clearEvery)}
	})
	c.Outcome(k.Family + p.name)
	runtime.KeepAlive(o)
}

func memLoop(c *rt.C, k *Kind, loop []Step, n2 int) {
	o, err := k.Mk()
	if err != nil {
		return
	}
	c.Label(func() string { return fmt.Sprintf("%s memory under (%v)*", k.Name, loop) })
	dead := false
	grows(c, k.Name, 6*(k.Window+k.Lag)+300, n2, 6000, func(i int) {
		if dead {
			return
		}
		defer func() {
			if e := recover(); e != nil {
				dead = true
			}
		}()
		s := loop[i%len(loop)]
		if s.Clear {
			o.Clear()
		} else {
			_ = o.Push(append([]float64(nil), s.X...))
		}
	}, func() []string { return []string{fmt.Sprintf("endless repetition of %v", loop)} })
	runtime.KeepAlive(o)
}

func loopsOver(alpha []Step, n int) [][]Step {
	var out [][]Step
	var rec func(p []Step, l int)
	rec = func(p []Step, l int) {
		if len(p) == l {
			// keep only primitive words, least rotation first letter
			out = append(out, append([]Step{}, p...))
			return
		}
		for _, a := range alpha {
			rec(append(p, a), l)
		}
	}
	for l := 1; l <= n; l++ {
		rec(nil, l)
	}
	return out
}

func p06() *rt.Check {
	return &rt.Check{Property: "P06",
		Rule: "every metric kind x every stream pattern and every ultimately periodic stream with a loop up to the bound (clears included): the retained heap after garbage collection may not grow between two long stretches of the stream once the window is full",
		Bounds: func(t string) string {
			return "windows 1,2,5,16,100; 14 patterns, with and without periodic clears, 4000 (thorough 40000) operations per stretch; every loop of length <=3 (bivariate <=2; thorough <=4) over 3 values per variable and clear"
		},
		Assumptions: []string{"growth of less than 6 kB over a stretch of the stated length is not seen", "metrics over an unbounded window that are documented as linear (global quantiles) are excluded"},
		Jobs: func(tier string) []rt.Job {
			debug.SetGCPercent(400)
			var js []rt.Job
			n2 := pick(tier, 4000, 40000)
			ks := uniq(zoo([]int{1, 2, 5, 16, 100}, tier == "thorough"))
			for _, k := range ks {
				k := k
				js = append(js, rt.Job{Name: k.Name + "/patterns", Run: func(c *rt.C) {
					for _, p := range patterns() {
						if c.Expired() {
							c.Cap("time")
							return
						}
						memPattern(c, k, p, n2, 0)
					}
					memPattern(c, k, patterns()[0], n2, k.Window+k.Lag+3)
					memPattern(c, k, patterns()[10], n2, 2)
				}})
			}
			for _, k := range uniq(zoo([]int{2, 3}, tier == "thorough")) {
				k := k
				js = append(js, rt.Job{Name: k.Name + "/loops", Run: func(c *rt.C) {
					for _, l := range loopsOver(withClear(allSteps(k, []float64{0, 1, 2})), pick(tier, 2+k.Arity%2, 4)) {
						if c.Expired() {
							c.Cap("time")
							return
						}
						memLoop(c, k, l, pick(tier, 1500, 2500))
					}
				}})
			}
			for _, n := range []int{0, 1, 5, 64} {
				n := n
				js = append(js, rt.Job{Name: fmt.Sprintf("Reservoir(%d)", n), Run: func(c *rt.C) {
					r := &sample.Reservoir{Size: n}
					grows(c, fmt.Sprintf("Reservoir(%d)", n), 2000, 60000, 12000, func(i int) {
						r.Push(i)
						if i%50 == 0 {
							r.Sample()
						}
					}, func() []string { return nil })
					runtime.KeepAlive(r)
				}})
			}
			return js
		}}
}

// ---- P07..P11 values -------------------------------------------------------

func p07() *rt.Check {
	return &rt.Check{Property: "P07",
		Rule: "every push/clear sequence up to the depth, every window content in one long stream, every ultimately periodic stream up to the bound, long patterned streams; after each step count, mean, every tracked central power sum, the moments, standard deviation, skewness and kurtosis are compared with a two-pass reference on the window",
		Bounds: func(t string) string {
			return "windows 0-6, 3 values + clear, length 6-7 (thorough 8-9); powers up to 30 in the core; windows up to 100 on long streams; streams of over 2^16 values for windows 0, 1, 2, 5, 1000, 66000"
		},
		Assumptions: []string{"finite values; tolerance = forward error model of the incremental algorithm (see DESIGN.md)"},
		Jobs: func(tier string) []rt.Job {
			var js []rt.Job
			th := tier == "thorough"
			alpha := withClear(vsteps(1, 0, 1, -3))
			alpha2 := vsteps(1, 2, 5, -1, 0.5)
			for w := 0; w <= 6; w++ {
				ks := []*Kind{kMean(w), kMomentK(1, w), kMomentK(2, w), kMomentK(3, w), kMomentK(4, w), kMomentK(5, w), kMomentK(7, w), kStd(w), kSkew(w), kKurt(w),
					kCore(nil, w, 0), kCore([]int{1}, w, 0), kCore([]int{2}, w, 0), kCore([]int{3}, w, 0), kCore([]int{2, 3, 4, 5}, w, 0), kCore([]int{8, 6}, w, 0), kCore([]int{12}, w, 0)}
				for _, k := range ks {
					js = append(js, seqJobs(k, alpha, pick(tier, 7, 9), false)...)
					js = append(js, seqJobs(k, alpha2, pick(tier, 6, 8), false)...)
				}
				if w > 0 {
					for _, k := range []*Kind{kMomentK(3, w), kStd(w), kSkew(w), kKurt(w), kCore([]int{2, 3, 4, 5}, w, 0)} {
						js = append(js, winJob(k, vsteps(1, 0, 1, 4), pick(tier, min(w+1, 6), min(w+3, 8)), 1))
					}
				}
				for _, kk := range [][]int{{16}, {20}, {21}, {22}, {25}, {30}} {
					js = append(js, seqJobs(kCore(kk, w, 0), vsteps(1, 0, 1, -0.5), pick(tier, 6, 7), false)...)
				}
			}
			for _, k := range globals() {
				js = append(js, seqJobs(k, alpha, pick(tier, 7, 9), false)...)
			}
			for _, w := range []int{2, 3, 5} {
				js = append(js, lassoJob(kCore([]int{2, 3, 4}, w, 0), vsteps(1, 0, 1, -2), 2, pick(tier, 3, 4), 12*w+20, 1))
			}
			for _, w := range []int{0, 1, 2, 3, 7, 16, 33, 100} {
				ev := 1
				n := 3*w + 150
				if th {
					n = 10*w + 1000
					ev = 1 + w/10
				}
				js = append(js, longJobs(kCore([]int{2, 3, 4}, w, 0), n, ev), longJobs(kStd(w), n, ev), longJobs(kSkew(w), n, ev), longJobs(kKurt(w), n, ev), longJobs(kMean(w), n, ev))
			}
			for _, w := range []int{0, 1, 2, 5, 1000, 66000} {
				js = append(js, veryLongJob(kCore([]int{2, 3, 4}, w, 0), []int{0, 3, 1000}, "zigzag", "saw7"), veryLongJob(kStd(w), []int{0}, "lcg"), veryLongJob(kSkew(w), []int{0}, "spikes"), veryLongJob(kKurt(w), []int{0}, "spikes"), veryLongJob(kMean(w), []int{0, 3}, "lcg"), veryLongJob(kMomentK(3, w), []int{0}, "spikes"))
			}
			return js
		}}
}

func p08() *rt.Check {
	return &rt.Check{Property: "P08",
		Rule: "every push/clear sequence up to the depth and long patterned streams, for decays across (0,1) and powers up to 30; each observation compared with the direct weighted sum centred at the weighted mean",
		Bounds: func(t string) string {
			return "8 decays, powers 1-30, 3-4 values + clear, length 6-7 (thorough 8-9); streams of 200-600 values and of over 2^16"
		},
		Assumptions: []string{"finite values; tolerance = forward error model of the incremental algorithm"},
		Jobs: func(tier string) []rt.Job {
			var js []rt.Job
			alpha := withClear(vsteps(1, 0, 1, -3))
			for _, a := range []float64{0.5, 0.3, 0.25, 0.9, 0.999, 0.01, 1e-9, 1 - 1e-9} {
				ks := []*Kind{kEWMA(a), kEWMMoment(1, a), kEWMMoment(2, a), kEWMMoment(3, a), kEWMMoment(4, a), kEWMMoment(6, a), kEWMMoment(9, a), kEWMStd(a),
					kCore([]int{2, 3, 4, 5}, 0, a), kCore([]int{10}, 0, a), kCore(nil, 0, a)}
				for _, k := range ks {
					js = append(js, seqJobs(k, alpha, pick(tier, 7, 9), false)...)
					js = append(js, seqJobs(k, vsteps(1, 2, 5, -1, 0.5, 7), pick(tier, 5, 7), false)...)
					js = append(js, longJobs(k, pick(tier, 120, 500), pick(tier, 3, 7)))
				}
				if a < 0.9 {
					js = append(js, veryLongJob(kCore([]int{2, 3, 4}, 0, a), []int{0, 3, 1000}, "zigzag"), veryLongJob(kEWMA(a), []int{0}, "lcg"), veryLongJob(kEWMStd(a), []int{0}, "lcg"), veryLongJob(kEWMMoment(3, a), []int{0}, "spikes"))
				}
				for _, kk := range []int{16, 20, 21, 22, 25, 30} {
					js = append(js, seqJobs(kCore([]int{kk}, 0, a), vsteps(1, 0, 1, -0.5), pick(tier, 6, 7), false)...)
				}
			}
			return js
		}}
}

func jalpha(arity int, k int) []Step {
	// k distinct observations in general position
	base := []float64{0, 1, -2, 3, 0.5, 5, -1, 2}
	var out []Step
	for i := 0; i < k; i++ {
		x := make([]float64, arity)
		for j := range x {
			x[j] = base[(i*(2*j+1)+j*3)%len(base)]
		}
		out = append(out, Step{X: x})
	}
	return out
}

func p09() *rt.Check {
	return &rt.Check{Property: "P09",
		Rule: "every push/clear sequence of joint observations up to the depth, every window content in one long stream, long patterned streams, for many sets of (overlapping, nested, repeated, zero-containing) exponent tuples over 2-4 variables; count, means, every tracked tuple and every tuple below it, covariance and correlation compared with a two-pass reference; untracked tuples and variables must be errors",
		Bounds: func(t string) string {
			return "windows 0-5, 14 tuple sets, 3-4 observations + clear, length 5-6 (thorough 7-8); streams of over 2^16 observations for windows 0, 1, 3, 1000, 66000"
		},
		Assumptions: []string{"finite values; exponents <= 30; tolerance = forward error model of the incremental algorithm"},
		Jobs: func(tier string) []rt.Job {
			var js []rt.Job
			for w := 0; w <= 5; w++ {
				for _, k := range []*Kind{kCov(w), kCorr(w)} {
					js = append(js, seqJobs(k, withClear(jalpha(2, 4)), pick(tier, 7, 8), false)...)
					js = append(js, seqJobs(k, vsteps(2, 0, 1, -2), pick(tier, 5, 6), false)...)
					if w > 0 {
						js = append(js, winJob(k, jalpha(2, 4), pick(tier, min(w+1, 5), min(w+2, 6)), 1))
					}
				}
				for i, s := range jsets {
					k := kJCore(s, 0, w, 0)
					d := pick(tier, 5, 7)
					if len(below(s)) > 9 {
						d--
					}
					js = append(js, seqJobs(k, withClear(jalpha(k.Arity, 3)), d, false)...)
					if i < 3 {
						js = append(js, seqJobs(k, vsteps(2, 1, -1), pick(tier, 5, 6), false)...)
					}
				}
				for _, v := range []int{2, 3, 5} {
					js = append(js, seqJobs(kJCore(nil, v, w, 0), withClear(jalpha(v, 3)), pick(tier, 6, 7), false)...)
				}
				js = append(js, seqJobs(kJCore([][]int{{12, 0}, {1, 9}}, 0, w, 0), jalpha(2, 2), pick(tier, 4, 6), false)...)
				js = append(js, seqJobs(kJCore([][]int{{22, 0}}, 0, w, 0), vsteps(2, 0, 1, -0.5)[:5], pick(tier, 4, 5), false)...)
				js = append(js, seqJobs(kJCore([][]int{{30, 0}, {0, 21}}, 0, w, 0), vsteps(2, 0, 1), pick(tier, 4, 5), false)...)
			}
			js = append(js, seqJobs(kGlobalCov(), withClear(jalpha(2, 3)), 6, false)...)
			js = append(js, seqJobs(kGlobalCorr(), withClear(jalpha(2, 3)), 6, false)...)
			for _, w := range []int{0, 1, 2, 3, 7, 16, 33, 64} {
				n := pick(tier, 2*w+60, 6*w+300)
				for _, k := range []*Kind{kCov(w), kCorr(w), kJCore(jsets[2], 0, w, 0), kJCore(jsets[8], 0, w, 0)} {
					js = append(js, longJobs(k, n, 3))
				}
			}
			for _, w := range []int{0, 1, 3, 1000, 66000} {
				js = append(js, veryLongJob(kCov(w), []int{0, 3}, "zigzag"), veryLongJob(kCorr(w), []int{0}, "lcg"), veryLongJob(kJCore(jsets[2], 0, w, 0), []int{0, 1000}, "zigzag"))
			}
			return js
		}}
}

func p10() *rt.Check {
	return &rt.Check{Property: "P10",
		Rule: "every push/clear sequence of joint observations up to the depth and long patterned streams for decays across (0,1) and many sets of exponent tuples; compared with the direct weighted sums centred at the weighted means",
		Bounds: func(t string) string {
			return "8 decays, 14 tuple sets, 3-4 observations + clear, length 5-7 (thorough 7-8); streams of over 2^16 observations"
		},
		Assumptions: []string{"finite values; exponents <= 30; tolerance = forward error model of the incremental algorithm"},
		Jobs: func(tier string) []rt.Job {
			var js []rt.Job
			for _, a := range []float64{0.5, 0.3, 0.25, 0.9, 0.999, 0.01, 1e-9, 1 - 1e-9} {
				for _, k := range []*Kind{kEWMCov(a), kEWMCorr(a)} {
					js = append(js, seqJobs(k, withClear(jalpha(2, 4)), pick(tier, 6, 8), false)...)
					js = append(js, seqJobs(k, vsteps(2, 0, 1, -2), pick(tier, 4, 6), false)...)
					js = append(js, longJobs(k, pick(tier, 80, 400), 3))
				}
				for _, s := range jsets {
					k := kJCore(s, 0, 0, a)
					d := pick(tier, 5, 7)
					if len(below(s)) > 9 {
						d--
					}
					js = append(js, seqJobs(k, withClear(jalpha(k.Arity, 3)), d, false)...)
				}
				js = append(js, seqJobs(kJCore(nil, 3, 0, a), withClear(jalpha(3, 3)), 5, false)...)
				js = append(js, seqJobs(kJCore([][]int{{22, 0}}, 0, 0, a), vsteps(2, 0, 1, -0.5)[:5], 4, false)...)
				js = append(js, longJobs(kJCore(jsets[2], 0, 0, a), pick(tier, 80, 400), 3))
				if a < 0.9 {
					js = append(js, veryLongJob(kEWMCov(a), []int{0, 3}, "zigzag"), veryLongJob(kEWMCorr(a), []int{0}, "lcg"), veryLongJob(kJCore(jsets[2], 0, 0, a), []int{0, 1000}, "zigzag"))
				}
			}
			return js
		}}
}

func p11() *rt.Check {
	return &rt.Check{Property: "P11",
		Rule: "every push/clear sequence up to the depth, every window-plus-lag content, ultimately periodic and long patterned streams, for every lag x window pair; compared with covariance/correlation of the lagged pairs since the last clear",
		Bounds: func(t string) string {
			return "lags 0-6, windows 0-5, 3 values + clear, length 7 (thorough 9-10); lags up to 40 on long streams; streams of over 2^16 values for lags up to 66000"
		},
		Assumptions: []string{"finite values; tolerance = forward error model of the incremental algorithm"},
		Jobs: func(tier string) []rt.Job {
			var js []rt.Job
			for _, corr := range []bool{false, true} {
				for lag := 0; lag <= 6; lag++ {
					for w := 0; w <= 5; w++ {
						k := kAuto(corr, lag, w, false)
						js = append(js, seqJobs(k, withClear(vsteps(1, 0, 1, -3)), pick(tier, 6, 8), false)...)
						js = append(js, seqJobs(k, vsteps(1, 1, 2), pick(tier, 10, 13), false)...)
						js = append(js, seqJobs(k, withClear(vsteps(1, 1, 2)), pick(tier, 7, 9), false)...)
						js = append(js, lassoJob(k, withClear(vsteps(1, 0, 1, -3)), pick(tier, 1, 2), 3, 2*(lag+w)+12, 1))
					}
					js = append(js, seqJobs(kAuto(corr, lag, 0, true), withClear(vsteps(1, 0, 1, -3)), pick(tier, 5, 7), false)...)
				}
				for _, lw := range [][2]int{{1, 30}, {2, 7}, {7, 2}, {8, 8}, {16, 5}, {17, 33}, {40, 3}, {40, 0}, {0, 40}} {
					k := kAuto(corr, lw[0], lw[1], false)
					js = append(js, rt.Job{Name: k.Name + "/long", Run: func(c *rt.C) {
						n := 3*(lw[0]+lw[1]) + pick(tier, 60, 400)
						for _, p := range patterns() {
							longStream(c, k, p, n, 2, 0)
							longStream(c, k, p, n, 2, lw[0]+lw[1]/2+2)
							longStream(c, k, p, n, 2, max(1, lw[0]-1))
						}
					}})
				}
				for _, lw := range [][2]int{{0, 0}, {1, 0}, {3, 5}, {300, 0}, {1, 1000}, {66000, 3}} {
					js = append(js, veryLongJob(kAuto(corr, lw[0], lw[1], false), []int{0, 1000}, "zigzag", "lcg"))
				}
			}
			return js
		}}
}

var _ = math.Abs
