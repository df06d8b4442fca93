//go:build go1.22

package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/alexander-yu/stream"
	"github.com/alexander-yu/stream/aggregate"
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/minmax"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/quantile/ost/avl"
	"github.com/alexander-yu/stream/quantile/ost/rb"
	"github.com/alexander-yu/stream/quantile/skiplist"
	"github.com/alexander-yu/stream/sample"
	"github.com/alexander-yu/stream/zzverif/rt"
)

// expect reports a violation unless (err != nil) == bad; a panic is one too.
func expect(c *rt.C, what string, bad bool, f func() error) {
	rt.Tick()
	c.R.Evals++
	c.R.States++
	c.R.Transitions++
	var err error
	safely(c, "P17/"+what, "the call", []string{what}, func() { err = f() })
	if (err != nil) != bad {
		w := "accepted, although it is outside the documented domain"
		if !bad {
			w = fmt.Sprintf("rejected (%v), although it is inside the documented domain", err)
		}
		c.Violate("P17/"+what, what+": "+w, []string{what})
	}
	c.Outcome(fmt.Sprint(what, err != nil))
}

func fp(x *float64) string {
	if x == nil {
		return "nil"
	}
	return fmt.Sprint(*x)
}
func ip(x *int) string {
	if x == nil {
		return "nil"
	}
	return fmt.Sprint(*x)
}

func winOpts() []*int {
	return []*int{nil, stream.IntPtr(-1), stream.IntPtr(math.MinInt), stream.IntPtr(0), stream.IntPtr(1), stream.IntPtr(3)}
}
func decOpts() []*float64 {
	r := []*float64{nil}
	for _, x := range []float64{-0.5, 0, math.Copysign(0, -1), 5e-324, 0.3, 1 - 1.2e-16, 1, 1.5, math.NaN(), math.Inf(1), math.Inf(-1)} {
		r = append(r, stream.FloatPtr(x))
	}
	return r
}
func winDecOK(w *int, d *float64) bool {
	if w == nil || *w < 0 {
		return false
	}
	return d == nil || decayOK(*d) && *w == 0
}

func cfgMoment(c *rt.C) {
	sums := []moment.SumsConfig{nil, {}, {1: true}, {2: true}, {2: true, 5: true}, {0: true}, {-1: true}, {2: true, 0: true}, {3: true, -4: true}, {30: true}}
	okS := []bool{true, true, true, true, true, false, false, false, false, true}
	for _, w := range winOpts() {
		for _, d := range decOpts() {
			for i, s := range sums {
				cfg := &moment.CoreConfig{Sums: s, Window: w, Decay: d}
				what := fmt.Sprintf("moment.NewCore(window=%s, decay=%s, sums=%v)", ip(w), fp(d), s)
				good := winDecOK(w, d) && okS[i]
				var core *moment.Core
				expect(c, what, !good, func() (err error) { core, err = moment.NewCore(cfg); return })
				c.R.Traces++
				if core == nil {
					continue
				}
				mx := 0
				for k := range s {
					if k > mx {
						mx = k
					}
				}
				for n := 0; n <= 4; n++ {
					for _, k := range []int{math.MinInt, -31, -1, 0, mx + 1, mx + 2, 64, math.MaxInt} {
						if k <= mx && k > 0 {
							continue
						}
						expect(c, fmt.Sprintf("%s after %d pushes: Sum(%d)", what, n, k), true, func() error { _, err := core.Sum(k); return err })
					}
					for k := range s {
						k := k
						expect(c, fmt.Sprintf("%s after %d pushes: Sum(%d)", what, n, k), n == 0, func() error { _, err := core.Sum(k); return err })
					}
					expect(c, fmt.Sprintf("%s after %d pushes: Mean", what, n), n == 0, func() error { _, err := core.Mean(); return err })
					expect(c, fmt.Sprintf("%s: push %d", what, n), false, func() error { return core.Push(float64(n)) })
				}
			}
		}
	}
	c.Sample("moment.NewCore over windows x decays x power sets, then every query with boundary powers")
}

func cfgJoint(c *rt.C) {
	type sc struct {
		s  joint.SumsConfig
		ok bool
		n  int
	}
	ss := []sc{{nil, true, 0}, {joint.SumsConfig{}, true, 0}, {joint.SumsConfig{{1, 1}}, true, 2}, {joint.SumsConfig{{0, 2}}, true, 2}, {joint.SumsConfig{{1, 1, 2}}, true, 3},
		{joint.SumsConfig{{0, 0}}, false, 2}, {joint.SumsConfig{{1, 1}, {0, 0}}, false, 2}, {joint.SumsConfig{{-1, 2}}, false, 2}, {joint.SumsConfig{{2, -1}}, false, 2}, {joint.SumsConfig{{2, 1}, {1, -1}}, false, 2},
		{joint.SumsConfig{{2, -2}}, false, 2}, {joint.SumsConfig{{3}}, false, 1}, {joint.SumsConfig{{}}, false, 0}, {joint.SumsConfig{nil}, false, 0}, {joint.SumsConfig{{1, 1}, {1, 1, 1}}, false, 2},
		{joint.SumsConfig{{1, 1, 1}, {1, 1}}, false, 3}, {joint.SumsConfig{{1, 1}, {2}}, false, 2}, {joint.SumsConfig{{1, 1}, nil}, false, 2}, {joint.SumsConfig{{1, 1}, {2, 2}, {1, 1}}, true, 2}, {joint.SumsConfig{{1, 0, 0, 1}}, true, 4}}
	vs := []*int{nil, stream.IntPtr(-1), stream.IntPtr(0), stream.IntPtr(1), stream.IntPtr(2), stream.IntPtr(3), stream.IntPtr(4)}
	for _, w := range winOpts() {
		for _, d := range decOpts() {
			for _, v := range vs {
				for _, s := range ss {
					cfg := &joint.CoreConfig{Sums: s.s, Window: w, Vars: v, Decay: d}
					what := fmt.Sprintf("joint.NewCore(window=%s, decay=%s, vars=%s, sums=%v)", ip(w), fp(d), ip(v), s.s)
					good := winDecOK(w, d) && s.ok && (v == nil || *v >= 2)
					if len(s.s) == 0 && v == nil || len(s.s) > 0 && v != nil && *v != s.n {
						good = false
					}
					var core *joint.Core
					expect(c, what, !good, func() (err error) { core, err = joint.NewCore(cfg); return })
					c.R.Traces++
					if core == nil {
						continue
					}
					n := s.n
					if v != nil {
						n = *v
					}
					for p := 0; p <= 2; p++ {
						for _, i := range []int{math.MinInt, -1, n, n + 1, math.MaxInt} {
							expect(c, fmt.Sprintf("%s after %d pushes: Mean(%d)", what, p, i), true, func() error { _, err := core.Mean(i); return err })
						}
						for i := 0; i < n; i++ {
							expect(c, fmt.Sprintf("%s after %d pushes: Mean(%d)", what, p, i), p == 0, func() error { _, err := core.Mean(i); return err })
						}
						tracked := map[string]bool{}
						var ts [][]int
						for _, t := range s.s {
							ts = append(ts, t)
						}
						for _, t := range below(ts) {
							tracked[fmt.Sprint(t)] = true
						}
						// every tuple with exponents -2..3 (and some beyond 30) of every length 0..n+1
						ex := []int{-32, -2, -1, 0, 1, 2, 3, 31, 33, 62}
						for l := 0; l <= n+1 && l <= 3; l++ {
							words(len(ex), l, func(x []int) bool {
								t := make([]int, l)
								zero := true
								for i := range x {
									t[i] = ex[x[i]]
									zero = zero && t[i] == 0
								}
								if l == n && zero {
									return true // the trivial tuple: neither documented as tracked nor as untracked
								}
								expect(c, fmt.Sprintf("%s after %d pushes: Sum(%v)", what, p, t), p == 0 || !tracked[fmt.Sprint(t)], func() error { _, err := core.Sum(t...); return err })
								return true
							})
						}
						for _, l := range []int{0, 1, n - 1, n + 1, n + 2} {
							if l < 0 || l == n {
								continue
							}
							expect(c, fmt.Sprintf("%s: push of %d values", what, l), true, func() error { return core.Push(make([]float64, l)...) })
						}
						x := make([]float64, n)
						for i := range x {
							x[i] = float64(i*p + p)
						}
						expect(c, fmt.Sprintf("%s: push of %d values", what, n), false, func() error { return core.Push(x...) })
					}
				}
			}
		}
	}
	c.Sample("joint.NewCore over windows x decays x variable counts x tuple sets, then every query with boundary tuples")
}

func cfgWraps(c *rt.C) {
	ws := allWraps([]int{-2, -1, 0, 1, 2, 5}, []float64{-1, 0, 5e-324, 0.3, 1, 2, math.NaN(), math.Inf(1), math.Inf(-1)})
	for _, k := range []int{-2, -1, 0, 1, 2, 40} {
		k := k
		for _, w := range []int{-1, 0, 1, 3} {
			w := w
			ws = append(ws, wrap{name: fmt.Sprintf("Moment(k=%d,w=%d)", k, w), arity: 1, mk: func() any { return moment.New(k, w) }, ok: k > 0 && w >= 0})
		}
		for _, a := range []float64{-0.1, 0, 0.4, 1, math.NaN()} {
			a := a
			ws = append(ws, wrap{name: fmt.Sprintf("EWMMoment(k=%d,%v)", k, a), arity: 1, mk: func() any { return moment.NewEWMMoment(k, a) }, ok: k > 0 && decayOK(a)})
		}
	}
	for _, w := range ws {
		tr := w.name
		var m any
		safely(c, w.name, "constructor", []string{tr}, func() { m = w.mk() })
		unusable := func(when string) {
			if wSet(m) {
				c.Violate(w.name+"/isset", w.name+": claims to be set up "+when, []string{tr, when})
			}
			x := make([]float64, w.arity)
			expect(c, w.name+": Push "+when, true, func() error { return wPush(m, x...) })
			expect(c, w.name+": Value "+when, true, func() error { _, err := wValue(m); return err })
			if w.arity == 2 {
				expect(c, w.name+": Push(1) "+when, true, func() error { return wPush(m, 1) })
				expect(c, w.name+": Push() "+when, true, func() error { return m.(stream.JointMetric).Push() })
			}
			safely(c, w.name, "Clear "+when, []string{tr, when}, func() { wClear(m) })
			safely(c, w.name, "String "+when, []string{tr, when}, func() { _ = wStr(m) })
		}
		unusable("before setup")
		expect(c, w.name+": Init", !w.ok, func() error { return wInit(m) })
		c.R.Traces++
		if !w.ok {
			unusable("after a failed setup")
			continue
		}
		if !wSet(m) {
			c.Violate(w.name+"/isset", w.name+": claims not to be set up after Init", []string{tr})
		}
		expect(c, w.name+": Value while empty", true, func() error { _, err := wValue(m); return err })
		if w.arity == 2 {
			for _, n := range []int{0, 1, 3, 4} {
				expect(c, fmt.Sprintf("%s: Push of %d values", w.name, n), true, func() error { return m.(stream.JointMetric).Push(make([]float64, n)...) })
			}
		}
		for i := 0; i < 12; i++ {
			expect(c, fmt.Sprintf("%s: push %d", w.name, i), false, func() error { return wPush(m, []float64{float64(i * i % 7), float64(i)}[:w.arity]...) })
		}
		expect(c, w.name+": Value after 12 pushes", false, func() error { _, err := wValue(m); return err })
	}
	// lags
	for _, lag := range []int{math.MinInt, -1, 0, 1, 4} {
		for _, w := range []int{-1, 0, 1, 2} {
			lag, w := lag, w
			var a *joint.Autocov
			var b *joint.Autocorr
			expect(c, fmt.Sprintf("NewAutocov(%d,%d)", lag, w), lag < 0, func() (err error) { a, err = joint.NewAutocov(lag, w); return skipWin(err, lag, w) })
			expect(c, fmt.Sprintf("NewAutocorr(%d,%d)", lag, w), lag < 0, func() (err error) { b, err = joint.NewAutocorr(lag, w); return skipWin(err, lag, w) })
			expect(c, fmt.Sprintf("NewAutocov(%d,%d)+Init", lag, w), lag < 0 || w < 0, func() error {
				if a == nil {
					return fmt.Errorf("nil")
				}
				return joint.Init(a)
			})
			expect(c, fmt.Sprintf("NewAutocorr(%d,%d)+Init", lag, w), lag < 0 || w < 0, func() error {
				if b == nil {
					return fmt.Errorf("nil")
				}
				return joint.Init(b)
			})
		}
		expect(c, fmt.Sprintf("NewGlobalAutocov(%d)", lag), lag < 0, func() error { _, err := joint.NewGlobalAutocov(lag); return err })
		expect(c, fmt.Sprintf("NewGlobalAutocorr(%d)", lag), lag < 0, func() error { _, err := joint.NewGlobalAutocorr(lag); return err })
	}
	for _, w := range []int{math.MinInt, -3, -1, 0, 1, 2, 9} {
		w := w
		expect(c, fmt.Sprintf("NewMin(%d)", w), w < 0, func() error { _, err := minmax.NewMin(w); return err })
		expect(c, fmt.Sprintf("NewMax(%d)", w), w < 0, func() error { _, err := minmax.NewMax(w); return err })
		expect(c, fmt.Sprintf("NewHeapMedian(%d)", w), w < 0, func() error { _, err := quantile.NewHeapMedian(w); return err })
	}
	c.Sample("every core-backed metric x windows/decays/powers/lags inside and outside the domain: unusable before and after a failed setup, usable after a successful one")
}

// skipWin: a negative window may be rejected by the constructor or by the setup.
func skipWin(err error, lag, w int) error {
	if w < 0 && lag >= 0 {
		return nil
	}
	return err
}

// cfgSetCore: a metric given a core that does not track what it needs reports errors, never panics.
func cfgSetCore(c *rt.C) {
	for _, w := range []int{0, 2} {
		for _, s := range []moment.SumsConfig{nil, {1: true}, {2: true}, {3: true}, {4: true}} {
			for _, wr := range append(momentWraps(w), ewWraps(0.4)...) {
				core, err := moment.NewCore(&moment.CoreConfig{Window: stream.IntPtr(w), Sums: s})
				must(err)
				m := wr.mk()
				m.(moment.CoreWrapper).SetCore(core)
				need := 0
				for k := range m.(moment.CoreWrapper).Config().Sums {
					need = max(need, k)
				}
				have := 0
				for k := range s {
					have = max(have, k)
				}
				for i := 0; i < 4; i++ {
					what := fmt.Sprintf("%s on a core tracking %v, %d pushes: Value", wr.name, s, i)
					expect(c, what, i == 0 || need > have, func() error { _, err := wValue(m); return err })
					expect(c, what+"/push", false, func() error { return wPush(m, float64(i)) })
				}
			}
		}
		for _, s := range []joint.SumsConfig{nil, {{1, 1}}, {{2, 0}}, {{0, 2}, {1, 1}}, {{2, 2}}, {{0, 1, 1}}, {{1, 1, 1}}, {{0, 2, 0}}, {{2, 2, 2}}} {
			vars := 2
			if len(s) > 0 {
				vars = len(s[0])
			}
			for _, wr := range append(jointWraps(w), ewJointWraps(0.4)...) {
				cfg := &joint.CoreConfig{Window: stream.IntPtr(w), Sums: s, Vars: stream.IntPtr(vars)}
				core, err := joint.NewCore(cfg)
				must(err)
				m := wr.mk()
				m.(joint.CoreWrapper).SetCore(core)
				good := vars == 2
				var ts [][]int
				for _, t := range s {
					ts = append(ts, t)
				}
				tr := map[string]bool{}
				for _, t := range below(ts) {
					tr[fmt.Sprint(t)] = true
				}
				for _, t := range m.(joint.CoreWrapper).Config().Sums {
					good = good && tr[fmt.Sprint([]int(t))]
				}
				lag := wr.kind.Lag
				for i := 0; i < 6; i++ {
					// feed the core directly, so that it has values even when its variables do not fit
					what := fmt.Sprintf("%s on a core tracking %v, %d pushes: Value", wr.name, s, i)
					expect(c, what, i == 0 || !good, func() error { _, err := wValue(m); return err })
					if vars != 2 && wr.arity == 1 && i < lag {
						safely(c, what, "Push", []string{what}, func() { _ = wPush(m, float64(i)) }) // whether this one is refused already is left open
					} else {
						expect(c, what+"/push", vars != 2, func() error { return wPush(m, []float64{float64(i), 1}[:wr.arity]...) })
					}
					x := make([]float64, vars)
					for j := range x {
						x[j] = float64(i*j) + 1
					}
					must(core.Push(x...))
				}
			}
		}
	}
	c.Sample("every metric x cores that do or do not track what it needs")
}

func cfgQuantile(c *rt.C) {
	type io struct {
		name string
		opt  func() quantile.Option
		ok   bool
	}
	ims := []io{{"none", func() quantile.Option { return nil }, true}}
	for _, i := range []int{-1, 0, 1, 2, 3, 99} {
		i := i
		ims = append(ims, io{fmt.Sprintf("impl=%d", i), func() quantile.Option { return quantile.ImplOption(quantile.Impl(i)) }, i >= 0 && i <= 2})
	}
	for _, l := range []int{math.MinInt, -1, 0, 1, 2, 12, 63, 64, 65, 255, 256, 257, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20, 1<<20 + 1, 1 << 31, 1<<32 + 5, 1<<53 + 1, math.MaxInt64} {
		for _, p := range []float64{-1, 0, math.Copysign(0, -1), 5e-324, 0.25, 1 - 1.2e-16, 1, 1.5, math.NaN(), math.Inf(1), math.Inf(-1)} {
			l, p := l, p
			ims = append(ims, io{fmt.Sprintf("skiplist(max=%d,p=%g)", l, p), func() quantile.Option {
				return quantile.ImplOption(quantile.SkipList, skiplist.MaxLevelOption(l), skiplist.ProbabilityOption(p), skiplist.RandOption(rand.New(rand.NewSource(3))))
			}, l >= 1 && l <= 64 && decayOK(p)})
		}
	}
	ims = append(ims, io{"skiplist(rand=nil)", func() quantile.Option { return quantile.ImplOption(quantile.SkipList, skiplist.RandOption(nil)) }, false})
	interps := []io{{"none", func() quantile.Option { return nil }, true}}
	for _, i := range []int{-1, 0, 1, 2, 3, 4, 5, 99} {
		i := i
		interps = append(interps, io{fmt.Sprintf("interp=%d", i), func() quantile.Option { return quantile.InterpolationOption(quantile.Interpolation(i)) }, i >= 0 && i <= 4})
	}
	for _, w := range []int{math.MinInt, -1, 0, 1, 3} {
		for _, im := range ims {
			for _, in := range interps {
				for rev := 0; rev < 2; rev++ {
					w := w
					mkOpts := func() []quantile.Option {
						var os []quantile.Option
						if o := im.opt(); o != nil {
							os = append(os, o)
						}
						if o := in.opt(); o != nil {
							os = append(os, o)
						}
						if rev == 1 && len(os) == 2 {
							os[0], os[1] = os[1], os[0]
						}
						return os
					}
					bad := w < 0 || !im.ok || !in.ok
					what := fmt.Sprintf("(w=%d,%s,%s,order %d)", w, im.name, in.name, rev)
					var q *quantile.Quantile
					var med *quantile.Median
					var iqr *quantile.IQR
					c.R.Traces++
					expect(c, "quantile.New"+what, bad, func() (err error) { q, err = quantile.New(w, mkOpts()...); return })
					expect(c, "quantile.NewMedian"+what, bad, func() (err error) { med, err = quantile.NewMedian(w, mkOpts()...); return })
					expect(c, "quantile.NewIQR"+what, bad, func() (err error) { iqr, err = quantile.NewIQR(w, mkOpts()...); return })
					if w == 0 {
						expect(c, "quantile.NewGlobalQuantile"+what, bad, func() error { _, err := quantile.NewGlobalQuantile(mkOpts()...); return err })
						expect(c, "quantile.NewGlobalMedian"+what, bad, func() error { _, err := quantile.NewGlobalMedian(mkOpts()...); return err })
						expect(c, "quantile.NewGlobalIQR"+what, bad, func() error { _, err := quantile.NewGlobalIQR(mkOpts()...); return err })
					}
					if bad {
						continue
					}
					for n := 0; n <= 4; n++ {
						for _, phi := range []float64{math.Inf(-1), -1, math.Copysign(0, -1), 0, 5e-324, 0.25, 0.5, 1 - 1.2e-16, 1, 1.25, 2, math.Inf(1), math.NaN()} {
							phi := phi
							expect(c, fmt.Sprintf("quantile.New%s, %d values: Value(%g)", what, n, phi), n == 0 || !decayOK(phi), func() error { _, err := q.Value(phi); return err })
						}
						expect(c, fmt.Sprintf("quantile.NewMedian%s, %d values: Value", what, n), n == 0, func() error { _, err := med.Value(); return err })
						expect(c, fmt.Sprintf("quantile.NewIQR%s, %d values: Value", what, n), n == 0, func() error { _, err := iqr.Value(); return err })
						expect(c, fmt.Sprintf("quantile%s push %d", what, n), false, func() error {
							if err := q.Push(float64(n % 3)); err != nil {
								return err
							}
							if err := med.Push(float64(n % 3)); err != nil {
								return err
							}
							return iqr.Push(float64(n % 3))
						})
					}
				}
			}
		}
	}
	// options applied to the wrong structure
	for i, s := range []func() order.Statistic{func() order.Statistic { return &avl.Tree{} }, func() order.Statistic { return &rb.Tree{} }, func() order.Statistic { s, err := skiplist.New(); must(err); return s }} {
		expect(c, fmt.Sprintf("MaxLevelOption on structure %d", i), i < 2, func() error { return skiplist.MaxLevelOption(3)(s()) })
		expect(c, fmt.Sprintf("ProbabilityOption on structure %d", i), i < 2, func() error { return skiplist.ProbabilityOption(0.5)(s()) })
		expect(c, fmt.Sprintf("RandOption on structure %d", i), i < 2, func() error { return skiplist.RandOption(rand.New(rand.NewSource(1)))(s()) })
	}
	c.Sample("quantile constructors over windows x structures (with skip-list level limits and probabilities) x interpolations x option order; then quantile arguments inside and outside (0,1)")
}

func p17() *rt.Check {
	return &rt.Check{Property: "P17",
		Rule: "the full product of boundary, in-domain and out-of-domain values (including NaN, infinities, missing fields) of all parameters of every constructor, setup, push and query; each call must return an error exactly when an argument is outside its documented domain and must never panic",
		Bounds: func(t string) string {
			return "6 windows x 12 decays x 10 power sets; x 7 variable counts x 20 tuple sets; 8 metrics types x 6 windows, 8 x 9 decays; 5 windows x 118 structure options x 9 interpolations x 2 orders x 13 quantiles"
		},
		Assumptions: []string{"nil configuration pointers are not passed", "the all-zero tuple as a query is not judged", "structure options given to a structure that has no such option are not judged through ImplOption"},
		Jobs: func(tier string) []rt.Job {
			return []rt.Job{{Name: "moment-configs", Run: cfgMoment}, {Name: "joint-configs", Run: cfgJoint}, {Name: "metrics", Run: cfgWraps}, {Name: "foreign-cores", Run: cfgSetCore}, {Name: "quantile-options", Run: cfgQuantile}}
		}}
}

// ---- P18 --------------------------------------------------------------------

func perms(n, k int, f func(p []int) bool) {
	p := make([]int, 0, k)
	used := make([]bool, n)
	var rec func() bool
	rec = func() bool {
		if len(p) == k {
			return f(p)
		}
		for i := 0; i < n; i++ {
			if used[i] {
				continue
			}
			used[i] = true
			p = append(p, i)
			if !rec() {
				return false
			}
			p = p[:len(p)-1]
			used[i] = false
		}
		return true
	}
	rec()
}

// p18streams: short histories (nil = clear) used to compare sharing with owning.
func p18streams(arity int) [][][]float64 {
	base := [][]float64{{0, 1, -2, 5, 0.5, 3, 3, -1, 2}, {1, 1, 1, 2, 2, 2, 7, 7, 7}, {4, -4, 4, -4, 0, 1}}
	var out [][][]float64
	for bi, b := range base {
		var s [][]float64
		for i := range b {
			x := make([]float64, arity)
			for j := range x {
				x[j] = b[(i*(j+1)+2*j)%len(b)]
			}
			s = append(s, x)
			if bi == 1 && i == 4 {
				s = append(s, nil)
			}
		}
		out = append(out, s)
	}
	return out
}

func shareMoments(c *rt.C, ws []wrap, k int) {
	perms(len(ws), k, func(p []int) bool {
		if c.Expired() {
			c.Cap("time")
			return false
		}
		names := []string{}
		for _, i := range p {
			names = append(names, ws[i].name)
		}
		key := "merge of " + strings.Join(names, ", ")
		safely(c, key, "merging", names, func() {
			for si, st := range p18streams(1) {
				var ms []moment.Metric
				var cfgs []*moment.CoreConfig
				var before []moment.CoreConfig
				for _, i := range p {
					m := ws[i].mk().(moment.Metric)
					ms = append(ms, m)
					cf := m.Config()
					cfgs = append(cfgs, cf)
					before = append(before, deepMoment(cf))
				}
				cfg, err := moment.MergeConfigs(cfgs...)
				if err != nil {
					c.Violate(key, fmt.Sprintf("%s: compatible configurations rejected: %v", key, err), names)
				}
				core, err := moment.NewCore(cfg)
				if err != nil {
					c.Violate(key, fmt.Sprintf("%s: merged configuration rejected: %v", key, err), names)
				}
				for i := range cfgs {
					if !reflect.DeepEqual(deepMoment(cfgs[i]), before[i]) {
						c.Violate(key, fmt.Sprintf("%s: merging altered configuration %d", key, i), names)
					}
				}
				for _, m := range ms {
					m.SetCore(core)
				}
				var own []moment.Metric
				for _, i := range p {
					m := ws[i].mk().(moment.Metric)
					must(moment.Init(m))
					own = append(own, m)
				}
				var h [][]float64
				tr := append([]string{}, names...)
				for t, x := range st {
					rt.Tick()
					c.R.Transitions++
					if x == nil {
						ms[t%len(ms)].Clear()
						for _, m := range own {
							m.Clear()
						}
						h = nil
						tr = append(tr, "Clear()")
					} else {
						// any of the sharing metrics may be the one that is pushed to
						must(ms[(t+si)%len(ms)].Push(x[0]))
						for _, m := range own {
							must(m.Push(x[0]))
						}
						h = append(h, x)
						tr = append(tr, Step{X: x}.String())
					}
					for i := range ms {
						v, e := ms[i].Value()
						shareCmp(c, key, names[i], Obs{v, e != nil}, func() Obs { v, e := own[i].Value(); return Obs{v, e != nil} }(), ws[p[i]].kind.Ref(h)[0], tr)
					}
					c.R.States++
				}
				c.R.Traces++
			}
		})
		c.Outcome(key)
		return true
	})
}

func shareCmp(c *rt.C, key, name string, got, own Obs, want Exp, tr []string) {
	c.R.Evals++
	if ok, _ := match(got, want); !ok {
		c.Violate(key, fmt.Sprintf("%s: %s on the shared core reports %s, want %s", key, name, fmtObs(got), fmtExp(want)), tr)
	}
	if got.Err != own.Err {
		c.Violate(key, fmt.Sprintf("%s: %s on the shared core reports %s, on its own core %s", key, name, fmtObs(got), fmtObs(own)), tr)
	}
}

func deepMoment(c *moment.CoreConfig) moment.CoreConfig {
	r := moment.CoreConfig{}
	if c.Sums != nil {
		r.Sums = moment.SumsConfig{}
		for k, v := range c.Sums {
			r.Sums[k] = v
		}
	}
	if c.Window != nil {
		r.Window = stream.IntPtr(*c.Window)
	}
	if c.Decay != nil {
		r.Decay = stream.FloatPtr(*c.Decay)
	}
	return r
}

func deepJoint(c *joint.CoreConfig) joint.CoreConfig {
	r := joint.CoreConfig{}
	if c.Sums != nil {
		r.Sums = joint.SumsConfig{}
		for _, t := range c.Sums {
			r.Sums = append(r.Sums, append(joint.Tuple{}, t...))
		}
	}
	if c.Window != nil {
		r.Window = stream.IntPtr(*c.Window)
	}
	if c.Vars != nil {
		r.Vars = stream.IntPtr(*c.Vars)
	}
	if c.Decay != nil {
		r.Decay = stream.FloatPtr(*c.Decay)
	}
	return r
}

// jmember is something whose joint configuration can be merged.
type jmember struct {
	name string
	cfg  func() (*joint.CoreConfig, joint.Metric) // the metric is nil for a plain configuration
	obs  func(core *joint.Core, m joint.Metric) []Obs
	ref  func(h [][]float64) []Exp
}

func jmembers(w int, decay float64, arity int) []jmember {
	var r []jmember
	if arity == 2 {
		var ws []wrap
		if decay == 0 {
			ws = jointWraps(w)[:2]
		} else {
			ws = ewJointWraps(decay)
		}
		for _, x := range ws {
			x := x
			r = append(r, jmember{x.name, func() (*joint.CoreConfig, joint.Metric) { m := x.mk().(joint.Metric); return m.Config(), m },
				func(core *joint.Core, m joint.Metric) []Obs { v, err := m.Value(); return []Obs{{v, err != nil}} }, x.kind.Ref})
		}
	}
	sets := jsets
	if arity == 2 {
		sets = append([][][]int{{{2, 0}}, {{0, 3}}, {{1, 2}}, {{3, 1}}, {{0, 1}}}, jsets...)
	}
	for _, s := range sets {
		if len(s[0]) != arity {
			continue
		}
		s := s
		k := kJCore(s, 0, w, decay)
		var tr [][]int
		for _, t := range below(s) {
			a := 0
			for _, e := range t {
				a += e
			}
			if a >= 2 {
				tr = append(tr, t)
			}
		}
		r = append(r, jmember{fmt.Sprint("core", s), func() (*joint.CoreConfig, joint.Metric) {
			cfg := &joint.CoreConfig{Window: stream.IntPtr(w)}
			for _, t := range s {
				cfg.Sums = append(cfg.Sums, append(joint.Tuple{}, t...))
			}
			if decay != 0 {
				cfg.Decay = stream.FloatPtr(decay)
			}
			return cfg, nil
		}, func(core *joint.Core, _ joint.Metric) []Obs {
			o := []Obs{{float64(core.Count()), false}}
			for j := 0; j < arity; j++ {
				v, err := core.Mean(j)
				o = append(o, Obs{v, err != nil})
			}
			for _, t := range tr {
				v, err := core.Sum(t...)
				o = append(o, Obs{v, err != nil})
			}
			return o
		}, func(h [][]float64) []Exp {
			e := k.Ref(h)
			r := append([]Exp{}, e[:1+arity]...)
			return append(r, e[1+arity+2:1+arity+2+len(tr)]...)
		}})
	}
	return r
}

func shareJoint(c *rt.C, ms []jmember, arity, k int, short bool) {
	sts := p18streams(arity)
	if short {
		sts = sts[:2]
	}
	perms(len(ms), k, func(p []int) bool {
		if c.Expired() {
			c.Cap("time")
			return false
		}
		names := []string{}
		for _, i := range p {
			names = append(names, ms[i].name)
		}
		key := "merge of " + strings.Join(names, ", ")
		safely(c, key, "merging", names, func() {
			for _, st := range sts {
				var cfgs []*joint.CoreConfig
				var mets []joint.Metric
				var before []joint.CoreConfig
				for _, i := range p {
					cf, m := ms[i].cfg()
					cfgs = append(cfgs, cf)
					mets = append(mets, m)
					before = append(before, deepJoint(cf))
				}
				cfg, err := joint.MergeConfigs(cfgs...)
				if err != nil {
					c.Violate(key, fmt.Sprintf("%s: compatible configurations rejected: %v", key, err), names)
				}
				core, err := joint.NewCore(cfg)
				if err != nil {
					c.Violate(key, fmt.Sprintf("%s: merged configuration rejected: %v", key, err), names)
				}
				for i := range cfgs {
					if !reflect.DeepEqual(deepJoint(cfgs[i]), before[i]) {
						c.Violate(key, fmt.Sprintf("%s: merging altered configuration %d", key, i), names)
					}
				}
				var push joint.Metric
				for _, m := range mets {
					if m != nil {
						m.SetCore(core)
						push = m
					}
				}
				var h [][]float64
				tr := append([]string{}, names...)
				for t, x := range st {
					rt.Tick()
					c.R.Transitions++
					if x == nil {
						core.Clear()
						h = nil
						tr = append(tr, "Clear()")
					} else {
						if push != nil && t%2 == 0 {
							must(push.Push(x...))
						} else {
							must(core.Push(x...))
						}
						h = append(h, x)
						tr = append(tr, Step{X: x}.String())
					}
					for i := range p {
						got, want := ms[p[i]].obs(core, mets[i]), ms[p[i]].ref(h)
						for j := range got {
							c.R.Evals++
							if ok, _ := match(got[j], want[j]); !ok {
								c.Violate(key, fmt.Sprintf("%s: observation %d of %s on the shared core is %s, want %s", key, j, names[i], fmtObs(got[j]), fmtExp(want[j])), tr)
							}
						}
					}
					c.R.States++
				}
				c.R.Traces++
			}
		})
		c.Outcome(key)
		return true
	})
}

// conflicts: every list of up to n configurations drawn from a small universe;
// merging (followed by building the core) must fail exactly when they conflict.
func momentUniverse() []moment.CoreConfig {
	var uni []moment.CoreConfig
	for _, w := range []*int{nil, stream.IntPtr(0), stream.IntPtr(3)} {
		for _, d := range []*float64{nil, stream.FloatPtr(0.3), stream.FloatPtr(0.5)} {
			for _, s := range []moment.SumsConfig{nil, {2: true}, {3: true, 1: true}} {
				uni = append(uni, moment.CoreConfig{Window: w, Decay: d, Sums: s})
			}
		}
	}
	return uni
}

// near lists parameters that are close to each other, or that a shortcut might confuse.
func near() (ws []*int, ds []*float64) {
	for _, w := range []int{0, 1, 2, 3, 4, 5, 8, 16, 17, 32, 63, 64, 65, 255, 256, 257, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20, 1<<20 + 1, 1 << 31, 1<<32 + 5, 1<<53 + 1, math.MaxInt64} {
		ws = append(ws, stream.IntPtr(w))
	}
	for _, d := range []float64{1e-9, 2e-9, 0.1, math.Nextafter(0.1, 1), 0.1 + 1e-12, 0.1 + 1e-9, 0.1 + 1e-6, 0.1001, 0.1004, 0.101, 0.11, 0.2, 0.5, 0.9, 0.999, math.Nextafter(1, 0)} {
		ds = append(ds, stream.FloatPtr(d))
	}
	return append(ws, nil), append(ds, nil)
}

func conflictsMoment(c *rt.C, uni []moment.CoreConfig, n int) {
	for l := 0; l <= n; l++ {
		words(len(uni), l, func(x []int) bool {
			if c.Expired() {
				c.Cap("time")
				return false
			}
			rt.Tick()
			var cfgs []*moment.CoreConfig
			var before []moment.CoreConfig
			var w *int
			var d *float64
			bad := l == 0
			for _, i := range x {
				cf := deepMoment(&uni[i])
				before = append(before, deepMoment(&uni[i]))
				cfgs = append(cfgs, &cf)
				if cf.Window != nil {
					bad = bad || w != nil && *w != *cf.Window
					w = cf.Window
				}
				if cf.Decay != nil {
					bad = bad || d != nil && *d != *cf.Decay
					d = cf.Decay
				}
			}
			c.R.States++
			c.R.Transitions++
			what := fmt.Sprintf("moment.MergeConfigs%v", before)
			var err error
			var m *moment.CoreConfig
			safely(c, what, "the call", []string{what}, func() { m, err = moment.MergeConfigs(cfgs...) })
			if (err != nil) != bad {
				c.Violate("moment-merge", fmt.Sprintf("moment.MergeConfigs of %s: error %v", showMoment(before), err), nil)
			}
			for i := range cfgs {
				if !reflect.DeepEqual(deepMoment(cfgs[i]), before[i]) {
					c.Violate("moment-merge-alters", fmt.Sprintf("moment.MergeConfigs of %s altered configuration %d", showMoment(before), i), nil)
				}
			}
			if err == nil && l > 0 {
				want := moment.SumsConfig{}
				for _, b := range before {
					for k := range b.Sums {
						want[k] = true
					}
				}
				if len(want) != len(m.Sums) || ip(w) != ip(m.Window) || fp(d) != fp(m.Decay) {
					c.Violate("moment-merge-result", fmt.Sprintf("moment.MergeConfigs of %s gives %s", showMoment(before), showMoment([]moment.CoreConfig{*m})), nil)
				}
				for k := range want {
					if !m.Sums[k] {
						c.Violate("moment-merge-result", fmt.Sprintf("moment.MergeConfigs of %s gives %s", showMoment(before), showMoment([]moment.CoreConfig{*m})), nil)
					}
				}
			}
			c.R.Traces++
			return true
		})
	}
	c.Sample(fmt.Sprintf("all lists of up to %d out of %d univariate configurations", n, len(uni)))
}

func showMoment(cs []moment.CoreConfig) string {
	var p []string
	for _, c := range cs {
		var ks []int
		for k := range c.Sums {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		p = append(p, fmt.Sprintf("{window %s decay %s sums %v}", ip(c.Window), fp(c.Decay), ks))
	}
	return strings.Join(p, " ")
}

func showJoint(cs []joint.CoreConfig) string {
	var p []string
	for _, c := range cs {
		p = append(p, fmt.Sprintf("{window %s decay %s vars %s sums %v}", ip(c.Window), fp(c.Decay), ip(c.Vars), c.Sums))
	}
	return strings.Join(p, " ")
}

func jointUniverse() []joint.CoreConfig {
	var uni []joint.CoreConfig
	for _, w := range []*int{nil, stream.IntPtr(0), stream.IntPtr(3)} {
		for _, d := range []*float64{nil, stream.FloatPtr(0.3), stream.FloatPtr(0.5)} {
			for _, v := range []*int{nil, stream.IntPtr(2), stream.IntPtr(3)} {
				for _, s := range []joint.SumsConfig{nil, {{1, 1}}, {{2, 1}, {0, 1}}, {{1, 1, 1}}} {
					if v != nil && len(s) > 0 && len(s[0]) != *v {
						continue
					}
					if w == nil && d != nil && v == nil {
						continue // thins the universe out
					}
					uni = append(uni, joint.CoreConfig{Window: w, Decay: d, Vars: v, Sums: s})
				}
			}
		}
	}
	return uni
}

func conflictsJoint(c *rt.C, uni []joint.CoreConfig, n int) {
	for l := 0; l <= n; l++ {
		words(len(uni), l, func(x []int) bool {
			if c.Expired() {
				c.Cap("time")
				return false
			}
			rt.Tick()
			var cfgs []*joint.CoreConfig
			var before []joint.CoreConfig
			var w, v *int
			var d *float64
			tl := 0
			bad, mism := l == 0, false
			for _, i := range x {
				cf := deepJoint(&uni[i])
				before = append(before, deepJoint(&uni[i]))
				cfgs = append(cfgs, &cf)
				if cf.Window != nil {
					bad = bad || w != nil && *w != *cf.Window
					w = cf.Window
				}
				if cf.Vars != nil {
					bad = bad || v != nil && *v != *cf.Vars
					v = cf.Vars
				}
				if cf.Decay != nil {
					bad = bad || d != nil && *d != *cf.Decay
					d = cf.Decay
				}
				for _, t := range cf.Sums {
					mism = mism || tl != 0 && tl != len(t)
					tl = len(t)
				}
			}
			if l > 1 {
				bad = bad || mism
			}
			// a variable count that disagrees with the tuples of another
			// configuration may be rejected by the merge or by the core
			either := !bad && v != nil && tl != 0 && *v != tl
			c.R.States++
			c.R.Transitions++
			c.R.Traces++
			var err error
			var m *joint.CoreConfig
			name := "joint.MergeConfigs of " + showJoint(before)
			safely(c, "joint-merge", "merging", []string{name}, func() { m, err = joint.MergeConfigs(cfgs...) })
			for i := range cfgs {
				if !reflect.DeepEqual(deepJoint(cfgs[i]), before[i]) {
					c.Violate("joint-merge-alters", fmt.Sprintf("%s altered configuration %d", name, i), nil)
				}
			}
			if either {
				if err == nil {
					safely(c, "joint-merge-core", "building the core", []string{name}, func() { _, err = joint.NewCore(m) })
				}
				if err == nil {
					c.Violate("joint-merge", name+": neither the merge nor the core rejects the inconsistent variable counts", nil)
				}
				return true
			}
			if (err != nil) != bad {
				c.Violate("joint-merge", fmt.Sprintf("%s: error %v", name, err), nil)
			}
			if err == nil && l > 0 {
				if ip(w) != ip(m.Window) || fp(d) != fp(m.Decay) || ip(v) != ip(m.Vars) {
					c.Violate("joint-merge-result", fmt.Sprintf("%s gives %s", name, showJoint([]joint.CoreConfig{*m})), nil)
				}
				// every requested tuple must be covered
				for _, b := range before {
					for _, t := range b.Sums {
						ok := false
						for _, q := range m.Sums {
							le := len(q) == len(t)
							for i := range t {
								le = le && i < len(q) && t[i] <= q[i]
							}
							ok = ok || le
						}
						if !ok {
							c.Violate("joint-merge-result", fmt.Sprintf("%s loses the tuple %v: %s", name, t, showJoint([]joint.CoreConfig{*m})), nil)
						}
					}
				}
			}
			return true
		})
	}
	c.Sample(fmt.Sprintf("all lists of up to %d out of %d joint configurations", n, len(uni)))
}

func p18() *rt.Check {
	return &rt.Check{Property: "P18",
		Rule: "every ordered selection of metrics (and of tuple sets) up to the bound, per window and decay: configurations merged, one core set on all, three streams fed through the sharing metrics in turn, every report compared after every step with the reference and with a metric owning its core; every list of configurations from a universe with conflicting windows, decays, variable counts and tuple lengths must be rejected or accepted accordingly, inputs unchanged",
		Bounds: func(t string) string {
			return "ordered selections of 1-3 (thorough 4) of 8 univariate metrics, 1-3 of 5-14 joint members per window 0,1,2,3,5 and decays 0.3, 0.5; lists of <= 3 (thorough 4/3) out of 27 / 70 configurations; lists of <= 3 (thorough 4) of 15 windows, 17 decays (some 1 ulp apart) and 13 variable counts and tuple lengths"
		},
		Jobs: func(tier string) []rt.Job {
			var js []rt.Job
			kk := pick(tier, 3, 5)
			for _, w := range []int{0, 1, 2, 3, 5} {
				w := w
				for k := 1; k <= kk; k++ {
					k := k
					js = append(js, rt.Job{Name: fmt.Sprintf("moments/w=%d/%d", w, k), Run: func(c *rt.C) { shareMoments(c, momentWraps(w), k) }})
				}
				for _, ar := range []int{2, 3, 4} {
					for k := 1; k <= 3; k++ {
						ar, k := ar, k
						js = append(js, rt.Job{Name: fmt.Sprintf("joint/w=%d/vars=%d/%d", w, ar, k), Run: func(c *rt.C) {
							ms := jmembers(w, 0, ar)
							if k == 3 && ar == 2 && tier != "thorough" {
								ms = ms[:7]
							}
							shareJoint(c, ms, ar, k, k == 3 && tier != "thorough")
						}})
					}
				}
			}
			for _, a := range []float64{0.3, 0.5} {
				a := a
				for k := 1; k <= kk; k++ {
					k := k
					js = append(js, rt.Job{Name: fmt.Sprintf("ewm/%g/%d", a, k), Run: func(c *rt.C) { shareMoments(c, ewWraps(a), k) }})
				}
				for k := 1; k <= 3; k++ {
					k := k
					js = append(js, rt.Job{Name: fmt.Sprintf("ewjoint/%g/%d", a, k), Run: func(c *rt.C) {
						ms := jmembers(0, a, 2)
						if k == 3 && tier != "thorough" {
							ms = ms[:7]
						}
						shareJoint(c, ms, 2, k, k == 3)
					}})
				}
			}
			js = append(js, rt.Job{Name: "conflicts/moment", Run: func(c *rt.C) { conflictsMoment(c, momentUniverse(), pick(tier, 3, 4)) }},
				rt.Job{Name: "conflicts/joint", Run: func(c *rt.C) { conflictsJoint(c, jointUniverse(), pick(tier, 2, 3)) }})
			nw, nd := near()
			js = append(js, rt.Job{Name: "conflicts/near windows", Run: func(c *rt.C) {
				var um []moment.CoreConfig
				var uj []joint.CoreConfig
				for i, w := range nw {
					um = append(um, moment.CoreConfig{Window: w, Sums: moment.SumsConfig{1 + i%3: true}})
					uj = append(uj, joint.CoreConfig{Window: w, Sums: joint.SumsConfig{{1 + i%2, 1}}})
				}
				conflictsMoment(c, um, pick(tier, 3, 4))
				conflictsJoint(c, uj, pick(tier, 3, 4))
			}}, rt.Job{Name: "conflicts/near decays", Run: func(c *rt.C) {
				var um []moment.CoreConfig
				var uj []joint.CoreConfig
				for i, d := range nd {
					um = append(um, moment.CoreConfig{Window: stream.IntPtr(0), Decay: d, Sums: moment.SumsConfig{1 + i%3: true}})
					uj = append(uj, joint.CoreConfig{Window: stream.IntPtr(0), Decay: d, Sums: joint.SumsConfig{{1 + i%2, 1}}})
				}
				conflictsMoment(c, um, pick(tier, 3, 4))
				conflictsJoint(c, uj, pick(tier, 3, 4))
			}}, rt.Job{Name: "conflicts/variables", Run: func(c *rt.C) {
				var uj []joint.CoreConfig
				for _, v := range []int{2, 3, 4, 5} {
					uj = append(uj, joint.CoreConfig{Window: stream.IntPtr(1), Vars: stream.IntPtr(v)})
					t := make(joint.Tuple, v)
					t[v-1] = 2
					uj = append(uj, joint.CoreConfig{Window: stream.IntPtr(1), Sums: joint.SumsConfig{t}})
					uj = append(uj, joint.CoreConfig{Window: stream.IntPtr(1), Vars: stream.IntPtr(v), Sums: joint.SumsConfig{t}})
				}
				conflictsJoint(c, append(uj, joint.CoreConfig{}), pick(tier, 3, 4))
			}})
			return js
		}}
}

var _ = aggregate.NewSimpleAggregateMetric
var _ = sample.Reservoir{}
