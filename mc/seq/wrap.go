//go:build go1.22

package main

import (
	"fmt"
	"math"

	"github.com/alexander-yu/stream"
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/moment"
)

// wrap is a metric that needs a core, before it got one.
type wrap struct {
	name  string
	kind  *Kind // the reference for a set-up instance (nil when the configuration is invalid)
	arity int
	mk    func() any // *moment.X or *joint.X, not set up
	ok    bool       // whether setting it up must succeed
}

func wPush(m any, xs ...float64) error {
	switch m := m.(type) {
	case stream.Metric:
		return m.Push(xs[0])
	case stream.JointMetric:
		return m.Push(xs...)
	}
	panic(fmt.Sprintf("unexpected type %T", m))
}

func wValue(m any) (float64, error) {
	return m.(interface{ Value() (float64, error) }).Value()
}
func wClear(m any)      { m.(interface{ Clear() }).Clear() }
func wStr(m any) string { return m.(interface{ String() string }).String() }
func wSet(m any) bool   { return m.(interface{ IsSetCore() bool }).IsSetCore() }
func wInit(m any) error {
	switch m := m.(type) {
	case moment.CoreWrapper:
		return moment.Init(m)
	case joint.CoreWrapper:
		return joint.Init(m)
	}
	panic(fmt.Sprintf("unexpected type %T", m))
}

func isSimple(m any) bool { _, ok := m.(stream.SimpleMetric); return ok }

// momentWraps lists every univariate core-backed metric for a window.
func momentWraps(w int) []wrap {
	ok := w >= 0
	f := func(name string, k *Kind, mk func() any) wrap {
		return wrap{name: fmt.Sprintf("%s(w=%d)", name, w), kind: k, arity: 1, mk: mk, ok: ok}
	}
	return []wrap{
		f("Mean", kMean(w), func() any { return moment.NewMean(w) }),
		f("Moment1", kMomentK(1, w), func() any { return moment.New(1, w) }),
		f("Moment2", kMomentK(2, w), func() any { return moment.New(2, w) }),
		f("Moment3", kMomentK(3, w), func() any { return moment.New(3, w) }),
		f("Moment5", kMomentK(5, w), func() any { return moment.New(5, w) }),
		f("Std", kStd(w), func() any { return moment.NewStd(w) }),
		f("Skewness", kSkew(w), func() any { return moment.NewSkewness(w) }),
		f("Kurtosis", kKurt(w), func() any { return moment.NewKurtosis(w) }),
	}
}

func decayOK(a float64) bool { return a > 0 && a < 1 }

func ewWraps(a float64) []wrap {
	ok := decayOK(a)
	f := func(name string, k *Kind, mk func() any) wrap {
		return wrap{name: fmt.Sprintf("%s(%v)", name, a), kind: k, arity: 1, mk: mk, ok: ok}
	}
	return []wrap{
		f("EWMA", kEWMA(a), func() any { return moment.NewEWMA(a) }),
		f("EWMMoment1", kEWMMoment(1, a), func() any { return moment.NewEWMMoment(1, a) }),
		f("EWMMoment2", kEWMMoment(2, a), func() any { return moment.NewEWMMoment(2, a) }),
		f("EWMMoment3", kEWMMoment(3, a), func() any { return moment.NewEWMMoment(3, a) }),
		f("EWMMoment6", kEWMMoment(6, a), func() any { return moment.NewEWMMoment(6, a) }),
		f("EWMStd", kEWMStd(a), func() any { return moment.NewEWMStd(a) }),
	}
}

func jointWraps(w int) []wrap {
	ok := w >= 0
	ws := []wrap{
		{name: fmt.Sprintf("Cov(w=%d)", w), kind: kCov(w), arity: 2, mk: func() any { return joint.NewCov(w) }, ok: ok},
		{name: fmt.Sprintf("Corr(w=%d)", w), kind: kCorr(w), arity: 2, mk: func() any { return joint.NewCorr(w) }, ok: ok},
	}
	for _, lag := range []int{0, 1, 2, 3} {
		lag := lag
		ws = append(ws,
			wrap{name: fmt.Sprintf("Autocov(lag=%d,w=%d)", lag, w), kind: kAuto(false, lag, w, false), arity: 1, ok: ok,
				mk: func() any { m, err := joint.NewAutocov(lag, w); must(err); return m }},
			wrap{name: fmt.Sprintf("Autocorr(lag=%d,w=%d)", lag, w), kind: kAuto(true, lag, w, false), arity: 1, ok: ok,
				mk: func() any { m, err := joint.NewAutocorr(lag, w); must(err); return m }})
	}
	return ws
}

func ewJointWraps(a float64) []wrap {
	ok := decayOK(a)
	return []wrap{
		{name: fmt.Sprintf("EWMCov(%v)", a), kind: kEWMCov(a), arity: 2, mk: func() any { return joint.NewEWMCov(a) }, ok: ok},
		{name: fmt.Sprintf("EWMCorr(%v)", a), kind: kEWMCorr(a), arity: 2, mk: func() any { return joint.NewEWMCorr(a) }, ok: ok},
	}
}

func allWraps(ws []int, as []float64) []wrap {
	var r []wrap
	for _, w := range ws {
		r = append(r, momentWraps(w)...)
		r = append(r, jointWraps(w)...)
	}
	for _, a := range as {
		r = append(r, ewWraps(a)...)
		r = append(r, ewJointWraps(a)...)
	}
	return r
}

// wrapObj is the uniform face of a set-up wrapper.
func wrapObj(m any) *Obj {
	if s, ok := m.(stream.SimpleMetric); ok {
		return simple(s)
	}
	return jsimple(m.(stream.SimpleJointMetric))
}

// ---- comparing observations -------------------------------------------------

func normObs(o Obs) Obs {
	if o.Err {
		return Obs{Err: true}
	}
	if o.V == 0 {
		o.V = 0
	}
	if math.IsNaN(o.V) {
		o.V = math.NaN()
	}
	return o
}

func sameObs(a, b []Obs) int {
	for i := range a {
		x, y := normObs(a[i]), normObs(b[i])
		if x.Err != y.Err || !x.Err && x.V != y.V && !(math.IsNaN(x.V) && math.IsNaN(y.V)) {
			return i
		}
	}
	return -1
}

// words calls f for every word of length n over an alphabet of size k.
func words(k, n int, f func(w []int) bool) {
	w := make([]int, n)
	for {
		if !f(w) {
			return
		}
		d := n - 1
		for d >= 0 {
			w[d]++
			if w[d] < k {
				break
			}
			w[d] = 0
			d--
		}
		if d < 0 {
			return
		}
	}
}

// ---- cores that track less than the metric needs ----------------------------

// A partial core is one a user may hand to a metric with SetCore although it
// does not track everything the metric asks for: its queries may fail.
type partial struct {
	name string
	set  func(m any) any // sets a new such core and returns it
}

func partials(w wrap) []partial {
	var r []partial
	switch m := w.mk().(type) {
	case moment.CoreWrapper:
		cfg := m.Config()
		for _, ps := range [][]int{nil, {1}, {2}, {3}, {4}, {2, 3}, {5}} {
			mk := func() (*moment.Core, error) {
				s := moment.SumsConfig{}
				for _, p := range ps {
					s[p] = true
				}
				return moment.NewCore(&moment.CoreConfig{Window: cfg.Window, Decay: cfg.Decay, Sums: s})
			}
			if _, err := mk(); err != nil {
				continue
			}
			r = append(r, partial{fmt.Sprintf("on a core of powers %v", ps), func(m any) any {
				core, err := mk()
				must(err)
				m.(moment.CoreWrapper).SetCore(core)
				return core
			}})
		}
	case joint.CoreWrapper:
		cfg := m.Config()
		for _, ts := range [][][]int{nil, {{1, 1}}, {{2, 0}}, {{0, 2}}, {{2, 0}, {0, 2}}, {{1, 1}, {2, 0}}, {{1, 1}, {0, 2}}, {{2, 2}}, {{1, 1, 1}}} {
			mk := func() (*joint.Core, error) {
				s := joint.SumsConfig{}
				vars := 2
				for _, t := range ts {
					s = append(s, append(joint.Tuple{}, t...))
					vars = len(t)
				}
				return joint.NewCore(&joint.CoreConfig{Window: cfg.Window, Decay: cfg.Decay, Vars: stream.IntPtr(vars), Sums: s})
			}
			if _, err := mk(); err != nil {
				continue
			}
			r = append(r, partial{fmt.Sprintf("on a core of tuples %v", ts), func(m any) any {
				core, err := mk()
				must(err)
				m.(joint.CoreWrapper).SetCore(core)
				return core
			}})
		}
	}
	return r
}

// lookCore asks a core everything it may know.
func lookCore(core any) []Obs {
	var r []Obs
	add := func(v float64, err error) { r = append(r, Obs{v, err != nil}) }
	switch m := core.(type) {
	case *moment.Core:
		r = append(r, Obs{V: float64(m.Count())})
		add(m.Mean())
		for p := 1; p <= 5; p++ {
			add(m.Sum(p))
		}
	case *joint.Core:
		r = append(r, Obs{V: float64(m.Count())})
		for v := 0; v < 3; v++ {
			add(m.Mean(v))
		}
		for _, t := range [][]int{{1, 1}, {2, 0}, {0, 2}, {1, 0}, {2, 1}, {2, 2}, {1, 1, 1}} {
			add(m.Sum(t...))
		}
	}
	return r
}
