//go:build go1.22

package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"

	"github.com/alexander-yu/stream"
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/minmax"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/quantile/skiplist"
)

// Obj is a live object of the implementation behind a uniform face.
type Obj struct {
	Push  func(xs []float64) error
	Clear func()
	Obs   []func() (float64, error)
	Str   func() string
	Keep  any // what keeps the object alive
}

// Kind is one configured metric: how to build it and what it must answer.
type Kind struct {
	Name   string
	Family string
	Arity  int
	Window int // 0 when global
	Lag    int
	Global bool // constant space although the window is 0
	Mk     func() (*Obj, error)
	ObsNm  []string
	Ref    func(h [][]float64) []Exp
}

func one(f func(float64) error) func([]float64) error {
	return func(xs []float64) error { return f(xs[0]) }
}

func simple(m stream.SimpleMetric) *Obj {
	return &Obj{Push: one(m.Push), Clear: m.Clear, Obs: []func() (float64, error){m.Value}, Str: m.String, Keep: m}
}

func jsimple(m stream.SimpleJointMetric) *Obj {
	return &Obj{Push: func(xs []float64) error { return m.Push(xs...) }, Clear: m.Clear, Obs: []func() (float64, error){m.Value}, Str: m.String, Keep: m}
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("construction with valid arguments failed: %v", err))
	}
}

// ---- min / max -------------------------------------------------------------

func kMinMax(max bool, w int, globalCtor bool) *Kind {
	nm := "Min"
	if max {
		nm = "Max"
	}
	name := fmt.Sprintf("%s(w=%d)", nm, w)
	if globalCtor {
		name = "Global" + nm
	}
	return &Kind{Name: name, Family: nm, Arity: 1, Window: w, Global: w == 0, ObsNm: []string{"Value"},
		Mk: func() (*Obj, error) {
			if max {
				if globalCtor {
					return simple(minmax.NewGlobalMax()), nil
				}
				m, err := minmax.NewMax(w)
				if err != nil {
					return nil, err
				}
				return simple(m), nil
			}
			if globalCtor {
				return simple(minmax.NewGlobalMin()), nil
			}
			m, err := minmax.NewMin(w)
			if err != nil {
				return nil, err
			}
			return simple(m), nil
		},
		Ref: func(h [][]float64) []Exp {
			h = lastw(h, w)
			if len(h) == 0 {
				return []Exp{wantErr()}
			}
			b := h[0][0]
			for _, x := range h {
				if max && x[0] > b || !max && x[0] < b {
					b = x[0]
				}
			}
			return []Exp{exact(b)}
		}}
}

// ---- quantiles -------------------------------------------------------------

// cycSource feeds a deterministic cyclic sequence of 63-bit values to math/rand.
type cycSource struct {
	vals []int64
	i    int
}

func (s *cycSource) Int63() int64   { v := s.vals[s.i%len(s.vals)]; s.i++; return v }
func (s *cycSource) Uint64() uint64 { return uint64(s.Int63())<<1 | 1 }
func (s *cycSource) Seed(int64)     {}

// randFor returns a *rand.Rand whose Float64 results cycle through fs.
func randFor(fs ...float64) *rand.Rand {
	vs := make([]int64, len(fs))
	for i, f := range fs {
		lo := int64(f * (1 << 53))
		vs[i] = int64(f*(1<<10))<<53 | lo // top bits and low 53 bits both encode f
	}
	return rand.New(&cycSource{vals: vs})
}

// levelFor returns the random number that makes a node reach exactly `level`
// levels in a skip list with promotion probability 1/4.
func levelFor(level int) float64 { return math.Pow(0.25, float64(level)) * 2 }

func randLevels(ls ...int) *rand.Rand {
	fs := make([]float64, len(ls))
	for i, l := range ls {
		fs[i] = levelFor(l)
	}
	return randFor(fs...)
}

type implCfg struct {
	name string
	opts func() []quantile.Option
}

func impls() []implCfg {
	sk := func(f func() []order.Option) func() []quantile.Option {
		return func() []quantile.Option {
			return []quantile.Option{quantile.ImplOption(quantile.SkipList, f()...)}
		}
	}
	return []implCfg{
		{"default", func() []quantile.Option { return nil }},
		{"avl", func() []quantile.Option { return []quantile.Option{quantile.ImplOption(quantile.AVL)} }},
		{"rb", func() []quantile.Option { return []quantile.Option{quantile.ImplOption(quantile.RedBlack)} }},
		{"skip-212", sk(func() []order.Option { return []order.Option{skiplist.RandOption(randLevels(2, 1, 2))} })},
		{"skip-1213", sk(func() []order.Option { return []order.Option{skiplist.RandOption(randLevels(1, 2, 1, 3))} })},
		{"skip-1", sk(func() []order.Option {
			return []order.Option{skiplist.MaxLevelOption(1), skiplist.RandOption(randLevels(3, 1))}
		})},
		{"skip-32123", sk(func() []order.Option {
			return []order.Option{skiplist.MaxLevelOption(3), skiplist.RandOption(randLevels(3, 2, 1, 2, 3, 1, 1))}
		})},
		{"skip-p50", sk(func() []order.Option {
			return []order.Option{skiplist.ProbabilityOption(0.5), skiplist.RandOption(randFor(0.1, 0.9, 0.3, 0.6, 0.01, 0.8, 0.4))}
		})},
	}
}

var phis = []float64{0.5, 0.25, 0.75, 0.125, 0.875, 0.3, 0.9, 0.01, 0.99, 1. / 3, 0.0001, 0.9999, 0.1, 0.7, 5e-324, 1 - u/2, 3e-9, 1 - 3e-9, 1e-7, 1 - 1e-5, 0.5 + 1e-9, 1./3 + 1e-10}

var interpName = []string{"linear", "lower", "higher", "nearest", "midpoint"}

func kQuantile(w int, im implCfg, interp int, phi []float64) *Kind {
	nms := []string{}
	for _, p := range phi {
		nms = append(nms, fmt.Sprintf("Value(%g)", p))
	}
	return &Kind{Name: fmt.Sprintf("Quantile(w=%d,%s,%s)", w, im.name, interpName[interp]), Family: "Quantile", Arity: 1, Window: w, ObsNm: nms,
		Mk: func() (*Obj, error) {
			opts := im.opts()
			if interp != iLinear {
				opts = append(opts, quantile.InterpolationOption(quantile.Interpolation(interp)))
			}
			q, err := quantile.New(w, opts...)
			if err != nil {
				return nil, err
			}
			o := &Obj{Push: one(q.Push), Clear: q.Clear, Str: q.String, Keep: q}
			for _, p := range phi {
				p := p
				o.Obs = append(o.Obs, func() (float64, error) { return q.Value(p) })
			}
			return o, nil
		},
		Ref: func(h [][]float64) []Exp {
			s := sorted(col(lastw(h, w), 0))
			r := make([]Exp, len(phi))
			for i, p := range phi {
				r[i] = quant(s, p, interp)
			}
			return r
		}}
}

func kMedian(w int, im implCfg) *Kind {
	return &Kind{Name: fmt.Sprintf("Median(w=%d,%s)", w, im.name), Family: "Median", Arity: 1, Window: w, ObsNm: []string{"Value"},
		Mk: func() (*Obj, error) {
			m, err := quantile.NewMedian(w, im.opts()...)
			if err != nil {
				return nil, err
			}
			return simple(m), nil
		},
		Ref: func(h [][]float64) []Exp { return []Exp{medianOf(col(lastw(h, w), 0))} }}
}

func kIQR(w int, im implCfg) *Kind {
	return &Kind{Name: fmt.Sprintf("IQR(w=%d,%s)", w, im.name), Family: "IQR", Arity: 1, Window: w, ObsNm: []string{"Value"},
		Mk: func() (*Obj, error) {
			m, err := quantile.NewIQR(w, im.opts()...)
			if err != nil {
				return nil, err
			}
			return simple(m), nil
		},
		Ref: func(h [][]float64) []Exp {
			s := sorted(col(lastw(h, w), 0))
			if len(s) == 0 {
				return []Exp{wantErr()}
			}
			a, b := quant(s, 0.25, iMidpoint), quant(s, 0.75, iMidpoint)
			return []Exp{val(b.V-a.V, a.Tol+b.Tol)}
		}}
}

func kHeapMedian(w int, globalCtor bool) *Kind {
	name := fmt.Sprintf("HeapMedian(w=%d)", w)
	if globalCtor {
		name = "GlobalHeapMedian"
	}
	return &Kind{Name: name, Family: "HeapMedian", Arity: 1, Window: w, ObsNm: []string{"Value"},
		Mk: func() (*Obj, error) {
			if globalCtor {
				return simple(quantile.NewGlobalHeapMedian()), nil
			}
			m, err := quantile.NewHeapMedian(w)
			if err != nil {
				return nil, err
			}
			return simple(m), nil
		},
		Ref: func(h [][]float64) []Exp { return []Exp{medianOf(col(lastw(h, w), 0))} }}
}

// ---- univariate moments ----------------------------------------------------

func sqrtTol(v, tol float64) float64 {
	if v > 4*tol {
		return tol/math.Sqrt(v) + 4*u*math.Sqrt(v)
	}
	return 2 * math.Sqrt(tol+4*u*v)
}

func expMean(h [][]float64, w int) Exp {
	if len(h) == 0 {
		return wantErr()
	}
	return val(mean(col(lastw(h, w), 0)), scaleOf(col(h, 0)).meanTol())
}

func expMoment(h [][]float64, w, k int) Exp {
	if len(h) == 0 {
		return wantErr()
	}
	xs := col(lastw(h, w), 0)
	if len(xs) < 2 {
		return skip()
	}
	n := float64(len(xs))
	s := scaleOf(col(h, 0))
	return val(central(xs, k)/(n-1), s.sumTol(k, len(xs))/(n-1))
}

func expStd(h [][]float64, w int) Exp {
	e := expMoment(h, w, 2)
	if e.Mode != 2 {
		return e
	}
	return val(math.Sqrt(e.V), sqrtTol(e.V, e.Tol))
}

func expSkew(h [][]float64, w int) Exp {
	if len(h) == 0 {
		return wantErr()
	}
	xs := col(lastw(h, w), 0)
	if len(xs) < 3 {
		return skip()
	}
	n := float64(len(xs))
	s := scaleOf(col(h, 0))
	s2, t2 := central(xs, 2), s.sumTol(2, len(xs))
	s3, t3 := central(xs, 3), s.sumTol(3, len(xs))
	if s2 < 1e3*t2 || s2 == 0 {
		return skip()
	}
	c := math.Sqrt(n*(n-1)) / (n - 2) * math.Sqrt(n)
	v := c * s3 / math.Pow(s2, 1.5)
	return val(v, c*t3/math.Pow(s2, 1.5)+math.Abs(v)*2*t2/s2+1e-12*(1+math.Abs(v)))
}

func expKurt(h [][]float64, w int) Exp {
	if len(h) == 0 {
		return wantErr()
	}
	xs := col(lastw(h, w), 0)
	if len(xs) < 2 {
		return skip()
	}
	n := float64(len(xs))
	s := scaleOf(col(h, 0))
	s2, t2 := central(xs, 2), s.sumTol(2, len(xs))
	s4, t4 := central(xs, 4), s.sumTol(4, len(xs))
	if s2 < 1e3*t2 || s2 == 0 {
		return skip()
	}
	v := n * s4 / (s2 * s2)
	return val(v-3, n*t4/(s2*s2)+v*3*t2/s2+1e-12*(1+v))
}

func minit(m moment.CoreWrapper) error { return moment.Init(m) }

func kMoment(name string, w int, mk func() moment.Metric, ref func(h [][]float64) Exp) *Kind {
	return &Kind{Name: fmt.Sprintf("%s(w=%d)", name, w), Family: name, Arity: 1, Window: w, Global: w == 0, ObsNm: []string{"Value"},
		Mk: func() (*Obj, error) {
			m := mk()
			if err := minit(m); err != nil {
				return nil, err
			}
			return simple(m), nil
		},
		Ref: func(h [][]float64) []Exp { return []Exp{ref(h)} }}
}

func kMean(w int) *Kind {
	return kMoment("Mean", w, func() moment.Metric { return moment.NewMean(w) }, func(h [][]float64) Exp { return expMean(h, w) })
}
func kMomentK(k, w int) *Kind {
	return kMoment(fmt.Sprintf("Moment%d", k), w, func() moment.Metric { return moment.New(k, w) }, func(h [][]float64) Exp { return expMoment(h, w, k) })
}
func kStd(w int) *Kind {
	return kMoment("Std", w, func() moment.Metric { return moment.NewStd(w) }, func(h [][]float64) Exp { return expStd(h, w) })
}
func kSkew(w int) *Kind {
	return kMoment("Skewness", w, func() moment.Metric { return moment.NewSkewness(w) }, func(h [][]float64) Exp { return expSkew(h, w) })
}
func kKurt(w int) *Kind {
	return kMoment("Kurtosis", w, func() moment.Metric { return moment.NewKurtosis(w) }, func(h [][]float64) Exp { return expKurt(h, w) })
}

func globals() []*Kind {
	g := func(name string, mk func() moment.Metric, ref func(h [][]float64) Exp) *Kind {
		k := kMoment(name, 0, mk, ref)
		k.Name = "Global" + name
		return k
	}
	return []*Kind{
		g("Mean", func() moment.Metric { return moment.NewGlobalMean() }, func(h [][]float64) Exp { return expMean(h, 0) }),
		g("Moment3", func() moment.Metric { return moment.NewGlobal(3) }, func(h [][]float64) Exp { return expMoment(h, 0, 3) }),
		g("Std", func() moment.Metric { return moment.NewGlobalStd() }, func(h [][]float64) Exp { return expStd(h, 0) }),
		g("Skewness", func() moment.Metric { return moment.NewGlobalSkewness() }, func(h [][]float64) Exp { return expSkew(h, 0) }),
		g("Kurtosis", func() moment.Metric { return moment.NewGlobalKurtosis() }, func(h [][]float64) Exp { return expKurt(h, 0) }),
	}
}

func maxOf(ks []int) int {
	m := 0
	for _, k := range ks {
		if k > m {
			m = k
		}
	}
	return m
}

// kCore is a univariate core with the given powers, windowed (decay 0) or decaying.
func kCore(ks []int, w int, decay float64) *Kind {
	mx := maxOf(ks)
	name := fmt.Sprintf("Core(%v,w=%d)", ks, w)
	if decay != 0 {
		name = fmt.Sprintf("Core(%v,decay=%g)", ks, decay)
	}
	nms := []string{"Count", "Mean"}
	tr := []int{}
	for k := 2; k <= mx; k++ {
		for _, kk := range ks {
			if kk == k {
				tr = append(tr, k)
			}
		}
	}
	for _, k := range tr {
		nms = append(nms, fmt.Sprintf("Sum(%d)", k))
	}
	bad := []int{0, -1, mx + 1, mx + 7}
	for _, k := range bad {
		nms = append(nms, fmt.Sprintf("Sum(%d)", k))
	}
	return &Kind{Name: name, Family: "Core", Arity: 1, Window: w, Global: w == 0, ObsNm: nms,
		Mk: func() (*Obj, error) {
			cfg := &moment.CoreConfig{Window: stream.IntPtr(w)}
			if len(ks) > 0 {
				cfg.Sums = moment.SumsConfig{}
				for _, k := range ks {
					cfg.Sums[k] = true
				}
			}
			if decay != 0 {
				cfg.Decay = stream.FloatPtr(decay)
			}
			c, err := moment.NewCore(cfg)
			if err != nil {
				return nil, err
			}
			o := &Obj{Push: one(c.Push), Clear: c.Clear, Keep: c, Str: func() string { return "" }}
			o.Obs = append(o.Obs, func() (float64, error) { return float64(c.Count()), nil }, c.Mean)
			for _, k := range append(append([]int{}, tr...), bad...) {
				k := k
				o.Obs = append(o.Obs, func() (float64, error) { return c.Sum(k) })
			}
			return o, nil
		},
		Ref: func(h [][]float64) []Exp {
			r := []Exp{}
			if decay == 0 {
				hw := lastw(h, w)
				xs := col(hw, 0)
				s := scaleOf(col(h, 0))
				r = append(r, exact(float64(len(xs))), expMean(h, w))
				for _, k := range tr {
					if len(xs) == 0 {
						r = append(r, wantErr())
					} else {
						r = append(r, val(central(xs, k), s.sumTol(k, len(xs))))
					}
				}
			} else {
				r = append(r, exact(float64(len(h))))
				if len(h) == 0 {
					r = append(r, wantErr())
				} else {
					r = append(r, val(ewmean(col(h, 0), decay), scaleOf(col(h, 0)).meanTol()))
				}
				for _, k := range tr {
					r = append(r, expEW(h, []int{k}, decay))
				}
			}
			for range bad {
				r = append(r, wantErr())
			}
			return r
		}}
}

func expEW(h [][]float64, t []int, decay float64) Exp {
	if len(h) == 0 {
		return wantErr()
	}
	return val(ewcentral(h, t, decay), jsumTol(jscales(h), t, 1))
}

func kEWMA(a float64) *Kind {
	return &Kind{Name: fmt.Sprintf("EWMA(%g)", a), Family: "EWMA", Arity: 1, Global: true, ObsNm: []string{"Value"},
		Mk: func() (*Obj, error) {
			m := moment.NewEWMA(a)
			if err := minit(m); err != nil {
				return nil, err
			}
			return simple(m), nil
		},
		Ref: func(h [][]float64) []Exp {
			if len(h) == 0 {
				return []Exp{wantErr()}
			}
			return []Exp{val(ewmean(col(h, 0), a), scaleOf(col(h, 0)).meanTol())}
		}}
}

func kEWMMoment(k int, a float64) *Kind {
	return &Kind{Name: fmt.Sprintf("EWMMoment%d(%g)", k, a), Family: "EWMMoment", Arity: 1, Global: true, ObsNm: []string{"Value"},
		Mk: func() (*Obj, error) {
			m := moment.NewEWMMoment(k, a)
			if err := minit(m); err != nil {
				return nil, err
			}
			return simple(m), nil
		},
		Ref: func(h [][]float64) []Exp { return []Exp{expEW(h, []int{k}, a)} }}
}

func kEWMStd(a float64) *Kind {
	return &Kind{Name: fmt.Sprintf("EWMStd(%g)", a), Family: "EWMStd", Arity: 1, Global: true, ObsNm: []string{"Value"},
		Mk: func() (*Obj, error) {
			m := moment.NewEWMStd(a)
			if err := minit(m); err != nil {
				return nil, err
			}
			return simple(m), nil
		},
		Ref: func(h [][]float64) []Exp {
			e := expEW(h, []int{2}, a)
			if e.Mode == 2 {
				e = val(math.Sqrt(math.Max(e.V, 0)), sqrtTol(e.V, e.Tol))
			}
			return []Exp{e}
		}}
}

// ---- joint -----------------------------------------------------------------

func jinit(m joint.CoreWrapper) error { return joint.Init(m) }

func expCov(h [][]float64, n int, all [][]float64) Exp {
	if len(h) == 0 {
		return wantErr()
	}
	if len(h) < 2 {
		return skip()
	}
	f := float64(len(h) - 1)
	return val(jcentral(h, []int{1, 1})/f, jsumTol(jscales(all), []int{1, 1}, len(h))/f)
}

func corrOf(cov, xv, yv, tc, tx, ty float64) Exp {
	if xv <= 0 || yv <= 0 || xv < 1e3*tx || yv < 1e3*ty {
		return skip()
	}
	d := math.Sqrt(xv) * math.Sqrt(yv) // the product of the sums may leave the range of floats
	v := cov / d
	return val(v, tc/d+math.Abs(v)*(tx/xv+ty/yv)+1e-12)
}

func expCorr(h [][]float64, all [][]float64) Exp {
	if len(h) == 0 {
		return wantErr()
	}
	if len(h) < 2 {
		return skip()
	}
	ss := jscales(all)
	return corrOf(jcentral(h, []int{1, 1}), jcentral(h, []int{2, 0}), jcentral(h, []int{0, 2}),
		jsumTol(ss, []int{1, 1}, len(h)), jsumTol(ss, []int{2, 0}, len(h)), jsumTol(ss, []int{0, 2}, len(h)))
}

func kJoint(name string, w int, mk func() joint.Metric, ref func(h [][]float64) Exp) *Kind {
	return &Kind{Name: fmt.Sprintf("%s(w=%d)", name, w), Family: name, Arity: 2, Window: w, Global: w == 0, ObsNm: []string{"Value"},
		Mk: func() (*Obj, error) {
			m := mk()
			if err := jinit(m); err != nil {
				return nil, err
			}
			return jsimple(m), nil
		},
		Ref: func(h [][]float64) []Exp { return []Exp{ref(h)} }}
}

func kCov(w int) *Kind {
	return kJoint("Cov", w, func() joint.Metric { return joint.NewCov(w) }, func(h [][]float64) Exp { return expCov(lastw(h, w), w, h) })
}
func kCorr(w int) *Kind {
	return kJoint("Corr", w, func() joint.Metric { return joint.NewCorr(w) }, func(h [][]float64) Exp { return expCorr(lastw(h, w), h) })
}
func kGlobalCov() *Kind {
	k := kJoint("Cov", 0, func() joint.Metric { return joint.NewGlobalCov() }, func(h [][]float64) Exp { return expCov(h, 0, h) })
	k.Name = "GlobalCov"
	return k
}
func kGlobalCorr() *Kind {
	k := kJoint("Corr", 0, func() joint.Metric { return joint.NewGlobalCorr() }, func(h [][]float64) Exp { return expCorr(h, h) })
	k.Name = "GlobalCorr"
	return k
}

func kEWMCov(a float64) *Kind {
	k := kJoint("EWMCov", 0, func() joint.Metric { return joint.NewEWMCov(a) }, func(h [][]float64) Exp { return expEW(h, []int{1, 1}, a) })
	k.Name = fmt.Sprintf("EWMCov(%g)", a)
	return k
}

func kEWMCorr(a float64) *Kind {
	k := kJoint("EWMCorr", 0, func() joint.Metric { return joint.NewEWMCorr(a) }, func(h [][]float64) Exp {
		if len(h) == 0 {
			return wantErr()
		}
		x, y, z := expEW(h, []int{1, 1}, a), expEW(h, []int{2, 0}, a), expEW(h, []int{0, 2}, a)
		return corrOf(x.V, y.V, z.V, x.Tol, y.Tol, z.Tol)
	})
	k.Name = fmt.Sprintf("EWMCorr(%g)", a)
	return k
}

// below returns every nonzero tuple dominated by some tuple of ts.
func below(ts [][]int) [][]int {
	seen := map[string]bool{}
	var out [][]int
	var rec func(t, pre []int)
	rec = func(t, pre []int) {
		if len(pre) == len(t) {
			s := 0
			for _, x := range pre {
				s += x
			}
			k := fmt.Sprint(pre)
			if s > 0 && !seen[k] {
				seen[k] = true
				out = append(out, append([]int{}, pre...))
			}
			return
		}
		for e := 0; e <= t[len(pre)]; e++ {
			rec(t, append(append([]int{}, pre...), e))
		}
	}
	for _, t := range ts {
		rec(t, nil)
	}
	sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
	return out
}

// kJCore is a joint core; vars is only needed when ts is empty.
func kJCore(ts [][]int, vars, w int, decay float64) *Kind {
	if len(ts) > 0 {
		vars = len(ts[0])
	}
	name := fmt.Sprintf("JointCore(%v,w=%d)", ts, w)
	if decay != 0 {
		name = fmt.Sprintf("JointCore(%v,decay=%g)", ts, decay)
	}
	tr := [][]int{}
	for _, t := range below(ts) {
		a := 0
		for _, e := range t {
			a += e
		}
		if a >= 2 { // first-order central sums are identically zero
			tr = append(tr, t)
		}
	}
	tr1 := below(ts)
	in := map[string]bool{}
	for _, t := range tr1 {
		in[fmt.Sprint(t)] = true
	}
	// untracked queries: right arity but not tracked, and wrong arity
	bad := [][]int{}
	for _, t := range ts {
		for j := range t {
			x := append([]int{}, t...)
			x[j]++
			if !in[fmt.Sprint(x)] {
				bad = append(bad, x)
			}
		}
	}
	if len(bad) > 3 {
		bad = bad[:3]
	}
	// tuples of another length, with negative or with very large exponents
	if len(ts) > 0 {
		t := ts[len(ts)-1]
		n := len(t)
		bad = append(bad, append([]int{0}, t...), append(append([]int{}, t...), 0))
		if t[0] == 0 {
			bad = append(bad, append([]int{}, t[1:]...))
		} else {
			bad = append(bad, append([]int{}, t[:n-1]...))
		}
		if n >= 2 {
			x := append([]int{}, t...)
			x[n-2], x[n-1] = x[n-2]+1, x[n-1]-31
			y := append([]int{}, t...)
			y[n-2], y[n-1] = y[n-2]-1, y[n-1]+31
			bad = append(bad, x, y)
			if t[n-2] > 0 {
				bad = append(bad, append(append([]int{}, t[:n-2]...), t[n-2]-1, t[n-1]+31))
			}
		}
	}
	nms := []string{"Count"}
	for j := 0; j < vars; j++ {
		nms = append(nms, fmt.Sprintf("Mean(%d)", j))
	}
	nms = append(nms, "Mean(-1)", fmt.Sprintf("Mean(%d)", vars))
	for _, t := range tr {
		nms = append(nms, fmt.Sprintf("Sum%v", t))
	}
	for _, t := range bad {
		nms = append(nms, fmt.Sprintf("Sum%v", t))
	}
	return &Kind{Name: name, Family: "JointCore", Arity: vars, Window: w, Global: w == 0, ObsNm: nms,
		Mk: func() (*Obj, error) {
			cfg := &joint.CoreConfig{Window: stream.IntPtr(w)}
			for _, t := range ts {
				cfg.Sums = append(cfg.Sums, append(joint.Tuple{}, t...))
			}
			if len(ts) == 0 {
				cfg.Vars = stream.IntPtr(vars)
			}
			if decay != 0 {
				cfg.Decay = stream.FloatPtr(decay)
			}
			c, err := joint.NewCore(cfg)
			if err != nil {
				return nil, err
			}
			o := &Obj{Push: func(xs []float64) error { return c.Push(xs...) }, Clear: c.Clear, Keep: c, Str: func() string { return "" }}
			o.Obs = append(o.Obs, func() (float64, error) { return float64(c.Count()), nil })
			for j := 0; j < vars; j++ {
				j := j
				o.Obs = append(o.Obs, func() (float64, error) { return c.Mean(j) })
			}
			o.Obs = append(o.Obs, func() (float64, error) { return c.Mean(-1) }, func() (float64, error) { return c.Mean(vars) })
			for _, t := range append(append([][]int{}, tr...), bad...) {
				t := t
				o.Obs = append(o.Obs, func() (float64, error) { return c.Sum(t...) })
			}
			return o, nil
		},
		Ref: func(h [][]float64) []Exp {
			hw := lastw(h, w)
			r := []Exp{exact(float64(len(hw)))}
			ss := jscales(h)
			for j := 0; j < vars; j++ {
				switch {
				case len(h) == 0:
					r = append(r, wantErr())
				case decay == 0:
					r = append(r, val(mean(col(hw, j)), ss[j].meanTol()))
				default:
					r = append(r, val(ewmean(col(h, j), decay), ss[j].meanTol()))
				}
			}
			r = append(r, wantErr(), wantErr())
			for _, t := range tr {
				switch {
				case len(h) == 0:
					r = append(r, wantErr())
				case decay == 0:
					r = append(r, val(jcentral(hw, t), jsumTol(ss, t, len(hw))))
				default:
					r = append(r, expEW(h, t, decay))
				}
			}
			for range bad {
				r = append(r, wantErr())
			}
			return r
		}}
}

// ---- lagged ----------------------------------------------------------------

func lagPairs(h [][]float64, lag int) [][]float64 {
	var p [][]float64
	for t := lag; t < len(h); t++ {
		p = append(p, []float64{h[t][0], h[t-lag][0]})
	}
	return p
}

func kAuto(corr bool, lag, w int, globalCtor bool) *Kind {
	nm := "Autocov"
	if corr {
		nm = "Autocorr"
	}
	name := fmt.Sprintf("%s(lag=%d,w=%d)", nm, lag, w)
	if globalCtor {
		name = fmt.Sprintf("Global%s(lag=%d)", nm, lag)
	}
	return &Kind{Name: name, Family: nm, Arity: 1, Window: w, Lag: lag, Global: w == 0, ObsNm: []string{"Value"},
		Mk: func() (*Obj, error) {
			if corr {
				var m *joint.Autocorr
				var err error
				if globalCtor {
					m, err = joint.NewGlobalAutocorr(lag)
				} else {
					m, err = joint.NewAutocorr(lag, w)
				}
				if err != nil {
					return nil, err
				}
				if err := jinit(m); err != nil {
					return nil, err
				}
				return simple(m), nil
			}
			var m *joint.Autocov
			var err error
			if globalCtor {
				m, err = joint.NewGlobalAutocov(lag)
			} else {
				m, err = joint.NewAutocov(lag, w)
			}
			if err != nil {
				return nil, err
			}
			if err := jinit(m); err != nil {
				return nil, err
			}
			return simple(m), nil
		},
		Ref: func(h [][]float64) []Exp {
			p := lagPairs(h, lag)
			pw := lastw(p, w)
			if corr {
				return []Exp{expCorr(pw, p)}
			}
			return []Exp{expCov(pw, w, p)}
		}}
}
