//go:build go1.22

package main

import (
	"fmt"

	"github.com/alexander-yu/stream"
	"github.com/alexander-yu/stream/aggregate"
)

// kAgg wraps simple univariate kinds into an aggregate.
func kAgg(members ...*Kind) *Kind {
	name := "Aggregate["
	w := 0
	for i, m := range members {
		if i > 0 {
			name += " "
		}
		name += m.Name
		if m.Window+m.Lag > w {
			w = m.Window + m.Lag
		}
	}
	nms := []string{"len(Values)"}
	for _, m := range members {
		nms = append(nms, "Values["+m.Name+"]")
	}
	return &Kind{Name: name + "]", Family: "Aggregate", Arity: 1, Window: w, ObsNm: nms,
		Mk: func() (*Obj, error) {
			var ms []stream.SimpleMetric
			for _, m := range members {
				o, err := m.Mk()
				if err != nil {
					return nil, err
				}
				ms = append(ms, o.Keep.(stream.SimpleMetric))
			}
			a := aggregate.NewSimpleAggregateMetric(ms...)
			o := &Obj{Push: one(a.Push), Clear: a.Clear, Keep: a, Str: func() string { return "" }}
			o.Obs = append(o.Obs, func() (float64, error) { v, err := a.Values(); return float64(len(v)), err })
			for _, m := range ms {
				key := m.String()
				o.Obs = append(o.Obs, func() (float64, error) { v, err := a.Values(); return v[key], err })
			}
			return o, nil
		},
		Ref: func(h [][]float64) []Exp { return aggExp(members, h) }}
}

func aggExp(members []*Kind, h [][]float64) []Exp {
	r := []Exp{exact(float64(len(members)))}
	bad, unknown := false, false
	for _, m := range members {
		e := m.Ref(h)[0]
		bad = bad || e.Mode == 1
		unknown = unknown || e.Mode == 0
		r = append(r, e)
	}
	for i := range r {
		if bad {
			r[i] = wantErr()
		} else if unknown {
			r[i] = skip()
		}
	}
	return r
}

// kJAgg wraps simple joint kinds into an aggregate.
func kJAgg(members ...*Kind) *Kind {
	name := "JointAggregate["
	w := 0
	for i, m := range members {
		if i > 0 {
			name += " "
		}
		name += m.Name
		if m.Window > w {
			w = m.Window
		}
	}
	nms := []string{"len(Values)"}
	for _, m := range members {
		nms = append(nms, "Values["+m.Name+"]")
	}
	return &Kind{Name: name + "]", Family: "JointAggregate", Arity: 2, Window: w, ObsNm: nms,
		Mk: func() (*Obj, error) {
			var ms []stream.SimpleJointMetric
			for _, m := range members {
				o, err := m.Mk()
				if err != nil {
					return nil, err
				}
				ms = append(ms, o.Keep.(stream.SimpleJointMetric))
			}
			a := aggregate.NewSimpleJointAggregateMetric(ms...)
			o := &Obj{Push: func(xs []float64) error { return a.Push(xs...) }, Clear: a.Clear, Keep: a, Str: func() string { return "" }}
			o.Obs = append(o.Obs, func() (float64, error) { v, err := a.Values(); return float64(len(v)), err })
			for _, m := range ms {
				key := m.String()
				o.Obs = append(o.Obs, func() (float64, error) { v, err := a.Values(); return v[key], err })
			}
			return o, nil
		},
		Ref: func(h [][]float64) []Exp { return aggExp(members, h) }}
}

var jsets = [][][]int{
	{{1, 1}},
	{{2, 2}},
	{{2, 1}, {1, 2}},
	{{1, 1}, {2, 0}, {0, 2}},
	{{0, 1}, {3, 0}},
	{{2, 1}, {2, 1}, {1, 1}},
	{{1, 2}, {2, 1}, {0, 3}, {3, 0}},
	{{1, 1, 1}},
	{{2, 1, 0}, {0, 1, 2}},
	{{1, 1, 0}, {1, 0, 1}, {0, 1, 1}},
	{{3, 3}},
	{{4, 0}, {2, 2}, {0, 4}},
	{{1, 0, 0, 1}, {0, 2, 1, 0}},
	{{2, 1, 1}},
}

// zoo lists one kind per metric type and window.
func zoo(ws []int, deep bool) []*Kind {
	var ks []*Kind
	ims := impls()
	for _, w := range ws {
		ks = append(ks, kMinMax(false, w, false), kMinMax(true, w, false))
		for i, im := range ims {
			if !deep && i > 4 {
				break
			}
			ks = append(ks, kQuantile(w, im, (i+w)%5, phis[:4]), kMedian(w, im), kIQR(w, im))
		}
		ks = append(ks, kHeapMedian(w, false), kMean(w), kMomentK(2, w), kMomentK(3, w), kMomentK(6, w), kStd(w), kSkew(w), kKurt(w),
			kCore(nil, w, 0), kCore([]int{4}, w, 0), kCore([]int{2, 5}, w, 0), kCov(w), kCorr(w), kJCore(nil, 3, w, 0))
		for i, s := range jsets {
			if !deep && i >= 9 {
				break
			}
			ks = append(ks, kJCore(s, 0, w, 0))
		}
		for _, lag := range []int{0, 1, 2, 3, 5} {
			ks = append(ks, kAuto(false, lag, w, false), kAuto(true, lag, w, false))
		}
		ks = append(ks, kAgg(kMinMax(false, w, false), kMean(w), kStd(w), kMedian(w, ims[1])), kJAgg(kCov(w), kCorr(w)))
	}
	ks = append(ks, constKinds()...)
	return ks
}

// constKinds are the metrics documented as constant space without a window.
func constKinds() []*Kind {
	ks := []*Kind{kMinMax(false, 0, true), kMinMax(true, 0, true), kGlobalCov(), kGlobalCorr()}
	ks = append(ks, globals()...)
	for _, a := range []float64{0.3, 0.5} {
		ks = append(ks, kEWMA(a), kEWMMoment(2, a), kEWMMoment(3, a), kEWMStd(a), kEWMCov(a), kEWMCorr(a), kCore([]int{2, 4}, 0, a), kJCore([][]int{{2, 1}, {1, 2}}, 0, 0, a))
	}
	for _, lag := range []int{0, 1, 3} {
		ks = append(ks, kAuto(false, lag, 0, true), kAuto(true, lag, 0, true))
	}
	return ks
}

func uniq(ks []*Kind) []*Kind {
	seen := map[string]bool{}
	var r []*Kind
	for _, k := range ks {
		if !seen[k.Name] {
			seen[k.Name] = true
			r = append(r, k)
		}
	}
	return r
}

func allSteps(k *Kind, vals []float64) []Step {
	if k.Arity == 1 {
		return vsteps(1, vals...)
	}
	// joint: a handful of tuples built from the values, not the full product
	var out []Step
	n := len(vals)
	for i := range vals {
		x := make([]float64, k.Arity)
		for j := range x {
			x[j] = vals[(i*(j+1)+j)%n]
		}
		out = append(out, Step{X: x})
	}
	return out
}

var _ = fmt.Sprint
