//go:build go1.22

package main

import (
	"fmt"
	"sort"

	"github.com/alexander-yu/stream"
	"github.com/alexander-yu/stream/aggregate"
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/sample"
	"github.com/alexander-yu/stream/zzverif/rt"
	"github.com/alexander-yu/stream/zzverif/vrand"
	"github.com/alexander-yu/stream/zzverif/vsync"
)

func checks() []*rt.Check {
	return []*rt.Check{p13(), p14(), p15conc(), p16(), p20(), p23()}
}

const concRule = "real code, instrumented only in its synchronisation calls, run under a cooperative scheduler that enumerates every choice of the next thread at every lock, wait and atomic operation, up to reordering of steps that share no synchronisation object (sleep sets); locks modelled after sync: a waiting writer blocks new readers"

func concBounds(quick, thorough string) func(string) string {
	return func(t string) string {
		if t == "thorough" {
			return thorough
		}
		return quick
	}
}

// call results: an error is an observation too
func errObs(err error) []Obs { return []Obs{{V: 0, Err: err != nil}} }

func valObs(v float64, err error) []Obs { return []Obs{{V: v, Err: err != nil}} }

func aPush(xs ...float64) Act {
	return Act{fmt.Sprintf("Push%v", xs), func(st any) []Obs { return errObs(st.(*Obj).Push(append([]float64(nil), xs...))) }}
}

func aClear() Act { return Act{"Clear", func(st any) []Obs { st.(*Obj).Clear(); return nil }} }

func aStr() Act {
	return Act{"String", func(st any) []Obs { return []Obs{{V: float64(len(st.(*Obj).Str()))}} }}
}

func aObs(k *Kind, i int) Act {
	return Act{k.ObsNm[i], func(st any) []Obs { return valObs(st.(*Obj).Obs[i]()) }}
}

func aAll(k *Kind) Act {
	return Act{"all queries", func(st any) []Obs {
		var r []Obs
		for _, f := range st.(*Obj).Obs {
			r = append(r, valObs(f())...)
		}
		return r
	}}
}

// aValues reads an aggregate in one call.
func aValues() Act {
	return Act{"Values", func(st any) []Obs {
		var m map[string]float64
		var err error
		switch a := st.(*Obj).Keep.(type) {
		case *aggregate.SimpleAggregateMetric:
			m, err = a.Values()
		case *aggregate.SimpleJointAggregateMetric:
			m, err = a.Values()
		}
		return mapObs(m, err)
	}}
}

func mapObs(m map[string]float64, err error) []Obs {
	r := []Obs{{V: float64(len(m)), Err: err != nil}}
	if err != nil {
		return r
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r = append(r, Obs{V: m[k]})
	}
	return r
}

// pushVals: values that make every order of pushes and evictions visible.
func pushVals(k *Kind, n int) [][]float64 {
	base := []float64{3, -1, 7, 4.5, 2, -6, 11}
	var r [][]float64
	for i := 0; i < n; i++ {
		x := make([]float64, k.Arity)
		for j := range x {
			x[j] = base[(i*(j+1)+3*j)%len(base)]
		}
		r = append(r, x)
	}
	return r
}

// progs lists all programs of length n over the acts.
func progs(n int, acts int) [][]int {
	var out [][]int
	words(acts, n, func(w []int) bool { out = append(out, append([]int{}, w...)); return true })
	return out
}

func wordStr(as []Act, w []int) []Act {
	var p []Act
	for _, x := range w {
		p = append(p, as[x])
	}
	return p
}

// scnSet builds scenarios over a state: acts(t, i) are the calls thread t may
// make at position i of its program.
type scnSet struct {
	name  string
	mk    func() any
	acts  func(t, i int) []Act
	n     int
	final []Act
	out   []*Scn
}

func (s *scnSet) add(ws ...[]int) {
	sc := &Scn{Name: s.name, Mk: s.mk, Final: s.final}
	for t, w := range ws {
		var p []Act
		for i, x := range w {
			p = append(p, s.acts(t, i)[x])
		}
		sc.Threads = append(sc.Threads, p)
		sc.Name += " "
		for i, a := range p {
			if i > 0 {
				sc.Name += ";"
			}
			sc.Name += a.Name
		}
		if t+1 < len(ws) {
			sc.Name += " |"
		}
	}
	s.out = append(s.out, sc)
}

// shape adds every assignment of programs of the given lengths; threads of
// equal length are interchangeable and are listed once.
func (s *scnSet) shape(lens ...int) {
	var rec func(ws [][]int)
	rec = func(ws [][]int) {
		t := len(ws)
		if t == len(lens) {
			s.add(ws...)
			return
		}
		ps := progs(lens[t], s.n)
		from := 0
		if t > 0 && lens[t-1] == lens[t] {
			for i, p := range ps {
				if fmt.Sprint(p) == fmt.Sprint(ws[t-1]) {
					from = i
				}
			}
		}
		for _, p := range ps[from:] {
			rec(append(append([][]int{}, ws...), p))
		}
	}
	rec(nil)
}

func kindSet(k *Kind, warm int) *scnSet {
	pv := pushVals(k, 24)
	s := &scnSet{name: fmt.Sprintf("%s after %d pushes:", k.Name, warm)}
	s.mk = func() any {
		o, err := k.Mk()
		must(err)
		for i := 0; i < warm; i++ {
			must(o.Push(append([]float64(nil), pv[23-i]...)))
		}
		return o
	}
	agg := k.Family == "Aggregate" || k.Family == "JointAggregate"
	s.acts = func(t, i int) []Act {
		a := []Act{aPush(pv[5*t+i]...), aClear()}
		if agg {
			return append(a, aValues())
		}
		for i := range k.ObsNm {
			a = append(a, aObs(k, i))
		}
		return append(a, aStr())
	}
	s.n = 3
	all := aAll(k)
	if agg {
		all = aValues()
	} else if len(k.ObsNm) > 1 {
		s.n = 4
	}
	s.final = []Act{all, aPush(pv[20]...), all}
	return s
}

func concWarm(k *Kind) []int {
	warm := []int{0, 1}
	if k.Window+k.Lag > 1 {
		warm = append(warm, k.Window+k.Lag)
	} else {
		warm = append(warm, 3)
	}
	return warm
}

// kindScns lists the scenarios of one kind of metric.
func kindScns(k *Kind, tier string) []*Scn {
	var out []*Scn
	agg := k.Family == "Aggregate" || k.Family == "JointAggregate"
	for _, wu := range concWarm(k) {
		s := kindSet(k, wu)
		switch {
		case agg:
			s.shape(1, 1)
			s.shape(2, 1)
			s.shape(1, 1, 1)
			if tier == "thorough" {
				s.shape(2, 2)
				s.shape(2, 1, 1)
			}
		default:
			s.shape(2, 1)
			s.shape(2, 2)
			s.shape(1, 1, 1)
			s.shape(2, 1, 1)
			if tier == "thorough" {
				s.shape(3, 2)
				s.shape(2, 2, 1)
				s.shape(1, 1, 1, 1)
				s.shape(3, 3)
			}
			// every query, in every pair of queries, against updates
			q := len(k.ObsNm) + 1
			for i := 0; i < q; i++ {
				for j := 0; j < q; j++ {
					s.add([]int{0, 0}, []int{2 + i, 2 + j})
					s.add([]int{1, 0}, []int{2 + i, 2 + j})
				}
				s.add([]int{0, 1}, []int{2 + i})
				s.add([]int{0}, []int{1}, []int{2 + i})
				s.add([]int{2 + i}, []int{2 + i}, []int{0})
			}
		}
		out = append(out, s.out...)
	}
	return out
}

// concKinds lists the kinds used under concurrency.
func concKinds(tier string) []*Kind {
	var ks []*Kind
	ims := impls()
	for _, w := range []int{0, 1, 2, 3} {
		if w == 3 && tier != "thorough" {
			continue
		}
		ks = append(ks, kMinMax(false, w, false), kMinMax(true, w, false))
		for i, im := range ims {
			if i > 4 {
				break
			}
			ks = append(ks, kQuantile(w, im, (i+w)%5, phis[:2]), kMedian(w, im), kIQR(w, im))
		}
		ks = append(ks, kHeapMedian(w, false), kMean(w), kMomentK(2, w), kMomentK(3, w), kStd(w), kSkew(w), kKurt(w),
			kCore(nil, w, 0), kCore([]int{2, 5}, w, 0), kCov(w), kCorr(w), kJCore(nil, 3, w, 0), kJCore(jsets[2], 0, w, 0), kJCore(jsets[3], 0, w, 0))
		for _, lag := range []int{0, 1, 2} {
			ks = append(ks, kAuto(false, lag, w, false), kAuto(true, lag, w, false))
		}
		ks = append(ks, kAgg(kMinMax(false, w, false), kMean(w)), kAgg(kStd(w), kMedian(w, ims[1]), kMinMax(true, w, false)), kJAgg(kCov(w), kCorr(w)), kAgg(kKurt(w)), kAgg())
	}
	return uniq(append(ks, constKinds()...))
}

// shared: several metrics on one core.
type shared struct {
	ms    []any
	core  any
	qs    []Act
	arity int
}

func sharedSets(tier string) []*scnSet {
	var out []*scnSet
	add := func(name string, warm int, mk func() *shared) {
		p := mk()
		s := &scnSet{name: name + fmt.Sprintf(" after %d pushes:", warm)}
		s.mk = func() any {
			x := mk()
			for i := 0; i < warm; i++ {
				must(wPush(x.ms[i%len(x.ms)], sharedVals(x.ms[i%len(x.ms)], 9+i)...))
			}
			return x
		}
		s.acts = func(t, i int) []Act {
			var as []Act
			for m := range p.ms {
				m := m
				v := sharedVals(p.ms[m], 4*t+2*i+m)
				as = append(as, Act{fmt.Sprintf("%s.Push%v", wStr(p.ms[m]), v), func(st any) []Obs { return errObs(wPush(st.(*shared).ms[m], append([]float64{}, v...)...)) }})
				if m >= 1 {
					break
				}
			}
			as = append(as, Act{wStr(p.ms[0]) + ".Clear", func(st any) []Obs { wClear(st.(*shared).ms[0]); return nil }})
			for m := range p.ms {
				m := m
				as = append(as, Act{wStr(p.ms[m]) + ".Value", func(st any) []Obs { return valObs(wValue(st.(*shared).ms[m])) }})
			}
			return as
		}
		s.n = len(s.acts(0, 0))
		fin := Act{"all values", func(st any) []Obs {
			var r []Obs
			for _, m := range st.(*shared).ms {
				r = append(r, valObs(wValue(m))...)
			}
			return r
		}}
		s.final = []Act{fin, s.acts(3, 0)[0], fin}
		s.shape(1, 1)
		s.shape(2, 1)
		s.shape(1, 1, 1)
		if tier == "thorough" {
			s.shape(2, 2)
			s.shape(2, 1, 1)
		}
		out = append(out, s)
	}
	for _, w := range []int{0, 2} {
		w := w
		for _, warm := range []int{0, 2} {
			add(fmt.Sprintf("Mean, Std, Skewness, Kurtosis, Moment3 on one core (w=%d)", w), warm, func() *shared {
				core, err := moment.NewCore(&moment.CoreConfig{Window: stream.IntPtr(w), Sums: moment.SumsConfig{2: true, 3: true, 4: true}})
				must(err)
				a, b, c, d, e := moment.NewMean(w), moment.NewStd(w), moment.NewSkewness(w), moment.NewKurtosis(w), moment.New(3, w)
				for _, m := range []moment.CoreWrapper{a, b, c, d, e} {
					m.SetCore(core)
				}
				return &shared{ms: []any{a, b, c, d, e}, core: core}
			})
			add(fmt.Sprintf("Cov, Corr on one core (w=%d)", w), warm, func() *shared {
				core, err := joint.NewCore(&joint.CoreConfig{Window: stream.IntPtr(w), Sums: joint.SumsConfig{{1, 1}, {2, 0}, {0, 2}}})
				must(err)
				a, b := joint.NewCov(w), joint.NewCorr(w)
				a.SetCore(core)
				b.SetCore(core)
				return &shared{ms: []any{a, b}, core: core}
			})
			add(fmt.Sprintf("Autocov, Autocorr (lag 1), Cov on one core (w=%d)", w), warm, func() *shared {
				core, err := joint.NewCore(&joint.CoreConfig{Window: stream.IntPtr(w), Sums: joint.SumsConfig{{1, 1}, {2, 0}, {0, 2}}})
				must(err)
				a, err := joint.NewAutocov(1, w)
				must(err)
				b, err := joint.NewAutocorr(1, w)
				must(err)
				d := joint.NewCov(w)
				a.SetCore(core)
				b.SetCore(core)
				d.SetCore(core)
				return &shared{ms: []any{a, b, d}, core: core}
			})
		}
	}
	add("EWMA, EWMStd, EWMMoment(3) on one core", 1, func() *shared {
		core, err := moment.NewCore(&moment.CoreConfig{Window: stream.IntPtr(0), Decay: stream.FloatPtr(0.3), Sums: moment.SumsConfig{2: true, 3: true}})
		must(err)
		a, b, c := moment.NewEWMA(0.3), moment.NewEWMStd(0.3), moment.NewEWMMoment(3, 0.3)
		a.SetCore(core)
		b.SetCore(core)
		c.SetCore(core)
		return &shared{ms: []any{a, b, c}, core: core}
	})
	add("EWMCov, EWMCorr on one core", 1, func() *shared {
		core, err := joint.NewCore(&joint.CoreConfig{Window: stream.IntPtr(0), Decay: stream.FloatPtr(0.3), Sums: joint.SumsConfig{{1, 1}, {2, 0}, {0, 2}}})
		must(err)
		a, b := joint.NewEWMCov(0.3), joint.NewEWMCorr(0.3)
		a.SetCore(core)
		b.SetCore(core)
		return &shared{ms: []any{a, b}, core: core}
	})
	return out
}

func sharedVals(m any, i int) []float64 {
	base := []float64{3, -1, 7, 4.5, 2, -6, 11, 0.5, 9, -4, 6}
	if _, ok := m.(stream.JointMetric); ok {
		return []float64{base[i%len(base)], base[(3*i+1)%len(base)]}
	}
	return []float64{base[i%len(base)]}
}

// reservoir scenarios: the random draws are enumerated as well.
func reservoirSet(size, warm int, tier string) *scnSet {
	s := &scnSet{name: fmt.Sprintf("Reservoir(%d) after %d pushes:", size, warm)}
	s.mk = func() any {
		r := &sample.Reservoir{Size: size}
		vrand.Enum = false
		for i := 0; i < warm; i++ {
			r.Push(100 + i)
		}
		vrand.Enum = true
		return r
	}
	look := func(st any) []Obs {
		x := st.(*sample.Reservoir).Sample()
		r := []Obs{{V: float64(len(x))}}
		for _, v := range x {
			r = append(r, Obs{V: float64(v.(int))})
		}
		return r
	}
	s.acts = func(t, i int) []Act {
		return []Act{{fmt.Sprintf("Push(%d)", 10*t+i), func(st any) []Obs { st.(*sample.Reservoir).Push(10*t + i); return nil }}, {"Sample", look}}
	}
	s.n = 2
	s.final = []Act{{"Sample", look}}
	s.shape(2, 1)
	s.shape(1, 1, 1)
	if size > 0 {
		s.shape(2, 2)
	}
	if tier == "thorough" {
		s.shape(3, 2)
		s.shape(2, 1, 1)
	}
	for _, sc := range s.out {
		sc.Enum = true
	}
	return s
}

// members of an aggregate used directly while the aggregate is in use: no
// atomicity is promised across members, but races and deadlocks are judged.
func memberSets(tier string) []*scnSet {
	type st struct {
		a  *aggregate.SimpleAggregateMetric
		ms []stream.SimpleMetric
	}
	var out []*scnSet
	for _, w := range []int{0, 2} {
		w := w
		s := &scnSet{name: fmt.Sprintf("aggregate of Min, Std (w=%d) and its members:", w)}
		s.mk = func() any {
			mn, err := kMinMax(false, w, false).Mk()
			must(err)
			sd, err := kStd(w).Mk()
			must(err)
			ms := []stream.SimpleMetric{mn.Keep.(stream.SimpleMetric), sd.Keep.(stream.SimpleMetric)}
			return &st{aggregate.NewSimpleAggregateMetric(ms...), ms}
		}
		s.acts = func(t, i int) []Act {
			v := float64(3*t + i)
			as := []Act{{"aggregate.Push", func(x any) []Obs { return errObs(x.(*st).a.Push(v)) }}, {"aggregate.Values", func(x any) []Obs { return mapObs(x.(*st).a.Values()) }}, {"aggregate.Clear", func(x any) []Obs { x.(*st).a.Clear(); return nil }}}
			for m := 0; m < 2; m++ {
				m := m
				as = append(as, Act{fmt.Sprintf("member%d.Push", m), func(x any) []Obs { return errObs(x.(*st).ms[m].Push(v)) }}, Act{fmt.Sprintf("member%d.Value", m), func(x any) []Obs { return valObs(x.(*st).ms[m].Value()) }}, Act{fmt.Sprintf("member%d.Clear", m), func(x any) []Obs { x.(*st).ms[m].Clear(); return nil }})
			}
			return as
		}
		s.n = len(s.acts(0, 0))
		s.final = []Act{s.acts(0, 0)[1]}
		s.shape(1, 1)
		if tier == "thorough" {
			s.shape(2, 1)
		}
		out = append(out, s)
	}
	return out
}

func runScns(c *rt.C, scs []*Scn, j judge) {
	for i, sc := range scs {
		explore(c, sc, j)
		if c.R.Capped {
			return
		}
		if i == len(scs)/2 {
			c.Sample(sc.Name)
		}
	}
	c.Count("scenarios", int64(len(scs)))
}

func p13() *rt.Check {
	return &rt.Check{Property: "P13",
		Rule: concRule + "; for every scenario (state before, one program of calls per thread) and every schedule: the race detector reports nothing (happens-before edges of the modelled primitives only), and results and final observations equal those of some one-at-a-time order of the calls, executed on the same code, that respects their real-time order",
		Bounds: concBounds("windows 0-2 (0, 1 and window+lag previous pushes), all programs over push/clear/query of shapes 2|1, 2|2, 1|1|1, 2|1|1 calls per thread (aggregates 1|1, 2|1, 1|1|1), every query against updates, several metrics on one core, reservoirs with every random draw; every schedule up to commutation; scenarios with more than 3000 of them, if any, every schedule with up to 2 preemptions (counted)",
			"windows 0-3, additionally shapes 3|2, 2|2|1, 3|3, 1|1|1|1; every schedule up to commutation, over 60000 of them up to 3 preemptions"),
		Assumptions: []string{"code between two synchronisation operations runs without interruption: sound for race-free executions, and races are reported in every schedule", "the ring buffer of the queue dependency is not instrumented (its atomics count as synchronisation for the race detector)"},
		Jobs: func(tier string) []rt.Job {
			var js []rt.Job
			j := judge{race: true, lin: true, bound: pick(tier, 2, 3), cap: pick(tier, 3000, 60000)}
			for _, k := range concKinds(tier) {
				k := k
				js = append(js, rt.Job{Name: k.Name, Run: func(c *rt.C) { runScns(c, kindScns(k, tier), j) }})
			}
			for _, s := range sharedSets(tier) {
				s := s
				js = append(js, rt.Job{Name: s.name, Run: func(c *rt.C) { runScns(c, s.out, j) }})
			}
			for _, size := range []int{0, 1, 2} {
				for _, warm := range []int{0, 2} {
					s := reservoirSet(size, warm, tier)
					js = append(js, rt.Job{Name: s.name, Run: func(c *rt.C) {
						vrand.Enum = true
						defer func() { vrand.Enum = false }()
						runScns(c, s.out, j)
					}})
				}
			}
			for _, s := range memberSets(tier) {
				s := s
				js = append(js, rt.Job{Name: s.name, Run: func(c *rt.C) {
					jj := j
					jj.lin = false
					runScns(c, s.out, jj)
				}})
			}
			return js
		}}
}

// ---- P14 --------------------------------------------------------------------

func p14() *rt.Check {
	return &rt.Check{Property: "P14",
		Rule:   concRule + "; for every scenario and schedule: no set of threads is left waiting for each other, and after all threads ended every kind of call still returns (nothing is left locked); failing calls of every kind (wrong number of values, invalid or untracked queries, empty metric, failing aggregate members, no core, a core that tracks too little) take part",
		Bounds: concBounds("windows 0-2, 0 or 2 previous pushes; cores of 7 univariate and 9 joint sets of sums under every metric, 0 or 3 previous pushes, shape 2|1; all pairs and triples of calls (one per thread), programs of 2 calls against 2 over push/clear/query/failing call; reservoirs with every random draw; every schedule up to commutation; aggregates of up to 100 members of which none, all or one fail: up to 1 (over 12 members: 0) departures from first-come and last-come order", "also 2|2|1 and 4 threads"),
		Jobs: func(tier string) []rt.Job {
			var js []rt.Job
			j := judge{dead: true, bound: pick(tier, 2, 3), cap: pick(tier, 3000, 60000)}
			for _, jt := range []bool{false, true} {
				for _, n := range bigSizes(tier) {
					jt, n := jt, n
					js = append(js, rt.Job{Name: fmt.Sprintf("large aggregates joint=%v n=%d", jt, n), Run: func(c *rt.C) {
						jj := judge{dead: true, depart: true, bound: 1}
						if n > pick(tier, 12, 40) {
							jj.bound = 0
						}
						for _, m := range []members{nobody, everybody, only(0), only(n - 1)} {
							s := stubSet(jt, n, m, m, false)
							s.shape(2)
							if n <= 12 {
								s.shape(1, 1)
							}
							runScns(c, s.out, jj)
						}
					}})
				}
			}
			for _, k := range concKinds(tier) {
				k := k
				for _, warm := range []int{0, 2} {
					warm := warm
					js = append(js, rt.Job{Name: fmt.Sprintf("%s after %d pushes", k.Name, warm), Run: func(c *rt.C) { runScns(c, stuckScns(k, warm, tier), j) }})
				}
			}
			for _, s := range sharedSets(tier) {
				s := s
				js = append(js, rt.Job{Name: s.name, Run: func(c *rt.C) { runScns(c, s.out, j) }})
			}
			for _, size := range []int{0, 1, 2} {
				for _, warm := range []int{0, 2} {
					s := reservoirSet(size, warm, tier)
					js = append(js, rt.Job{Name: s.name + " stuck", Run: func(c *rt.C) {
						vrand.Enum = true
						defer func() { vrand.Enum = false }()
						runScns(c, s.out, j)
					}})
				}
			}
			for _, s := range memberSets(tier) {
				s := s
				s.shape(1, 1, 1)
				js = append(js, rt.Job{Name: s.name, Run: func(c *rt.C) { runScns(c, s.out, j) }})
			}
			for _, jt := range []bool{false, true} {
				for n := 1; n <= 3; n++ {
					for mask := 0; mask < 1<<n; mask++ {
						s := stubSet(jt, n, subset(mask), subset(mask), false)
						s.shape(1, 1)
						if n <= 2 {
							s.shape(2, 1)
							s.shape(1, 1, 1)
						}
						js = append(js, rt.Job{Name: s.name + " stuck", Run: func(c *rt.C) { runScns(c, s.out, j) }})
					}
				}
			}
			for _, w := range allWraps([]int{0, 2}, []float64{0.3}) {
				w := w
				js = append(js, rt.Job{Name: w.name + " without a core", Run: func(c *rt.C) {
					s := &scnSet{name: w.name + " without a core:", mk: func() any { return wrapObj(w.mk()) }}
					s.acts = func(t, i int) []Act {
						return []Act{{"Push", func(st any) []Obs { return errObs(st.(*Obj).Push(make([]float64, w.arity))) }}, {"Value", func(st any) []Obs { return valObs(st.(*Obj).Obs[0]()) }}, aClear()}
					}
					s.n = 3
					s.final = s.acts(0, 0)
					s.shape(1, 1)
					s.shape(2, 2)
					runScns(c, s.out, j)
				}})
				js = append(js, rt.Job{Name: w.name + " on partial cores", Run: func(c *rt.C) {
					for _, p := range partials(w) {
						p := p
						for _, warm := range []int{0, 3} {
							warm := warm
							s := &scnSet{name: fmt.Sprintf("%s %s after %d pushes:", w.name, p.name, warm)}
							vals := func(i int) []float64 {
								x := []float64{3, -1, 7, 4.5, 2, -6, 11, 0.5}
								return []float64{x[i%8], x[(3*i+1)%8]}[:w.arity]
							}
							s.mk = func() any {
								m := w.mk()
								o := wrapObj(m)
								o.Keep = p.set(m)
								for i := 0; i < warm; i++ {
									_ = o.Push(vals(i)) // cores of other arities refuse
								}
								return o
							}
							s.acts = func(t, i int) []Act {
								return []Act{{"Push", func(st any) []Obs { return errObs(st.(*Obj).Push(vals(2*t + i))) }}, {"Value", func(st any) []Obs { return valObs(st.(*Obj).Obs[0]()) }}, aClear()}
							}
							s.n = 3
							s.final = append(s.acts(0, 0), Act{"core queries", func(st any) []Obs { return lookCore(st.(*Obj).Keep) }})
							s.shape(2, 1)
							if tier == "thorough" {
								s.shape(2, 2)
								s.shape(1, 1, 1)
							}
							runScns(c, s.out, j)
							if c.R.Capped {
								return
							}
						}
					}
				}})
			}
			return js
		}}
}

func stuckScns(k *Kind, warm int, tier string) []*Scn {
	s := kindSet(k, warm)
	base := s.acts
	agg := k.Family == "Aggregate" || k.Family == "JointAggregate"
	var names []string
	if ok, why := alone(func() {
		for _, op := range sideOps(k, s.mk().(*Obj)) {
			names = append(names, op.name)
		}
	}); !ok {
		panic(why)
	}
	nObs := len(k.ObsNm)
	if agg {
		nObs = 0
	}
	s.acts = func(t, i int) []Act {
		as := base(t, i)[:2]
		if agg {
			as = append(as, aValues())
		}
		for n := range names {
			if agg && n < len(k.ObsNm) {
				continue
			}
			n := n
			as = append(as, Act{names[n], func(st any) []Obs { sideOps(k, st.(*Obj))[n].f(); return nil }})
		}
		return as
	}
	all := len(s.acts(0, 0))
	s.final = append(s.acts(4, 0), s.acts(4, 1)[0])
	// every single call and every pair of calls one after the other, against each update
	s.n = all
	if agg {
		s.shape(1, 1)
		s.n = 3
		s.shape(2, 1)
		s.shape(1, 1, 1)
	} else {
		s.shape(1, 1)
		for i := 0; i < all; i++ {
			for _, u := range [][]int{{0, 1}, {0}, {1, 0}} {
				s.add([]int{i, 0}, u)
				s.add([]int{i}, []int{0}, []int{1})
				s.add([]int{i}, []int{i}, []int{0}, []int{0})
			}
		}
		s.n = min(all, 3+nObs)
		s.shape(1, 1, 1)
		s.n = 3
		s.shape(2, 2)
		if tier == "thorough" {
			s.shape(2, 2, 1)
			s.shape(1, 1, 1, 1)
			s.n = all
			s.shape(2, 1)
		}
	}
	return s.out
}

// ---- P15, several goroutines ------------------------------------------------

type pairState struct{ a, b *Obj }

func pairScn(name string, ka, kb *Kind, late int, pa, pb [][]float64) *Scn {
	sc := &Scn{Name: name}
	for _, k := range []*Kind{ka, kb} { // the type table of syncObjs is complete before threads use it
		o, err := k.Mk()
		must(err)
		syncObjs(o)
	}
	sc.Mk = func() any {
		st := &pairState{}
		if late < 2 {
			a, err := ka.Mk()
			must(err)
			st.a = a
		}
		if late < 1 {
			b, err := kb.Mk()
			must(err)
			st.b = b
		}
		return st
	}
	get := func(st any, which int) *Obj {
		if which == 0 {
			return st.(*pairState).a
		}
		return st.(*pairState).b
	}
	prog := func(which int, k *Kind, vs [][]float64) []Act {
		var p []Act
		if which == 1 && late >= 1 || which == 0 && late >= 2 {
			p = append(p, Act{"construct " + k.Name, func(st any) []Obs {
				o, err := k.Mk()
				if err == nil {
					if which == 0 {
						st.(*pairState).a = o
					} else {
						st.(*pairState).b = o
					}
					vsync.Register(2+which, syncObjs(o))
				}
				return errObs(err)
			}})
		}
		for _, v := range vs {
			v := v
			p = append(p, Act{fmt.Sprintf("%s.Push%v", k.Name, v), func(st any) []Obs { return errObs(get(st, which).Push(append([]float64{}, v...))) }})
		}
		p = append(p, Act{k.Name + " queries", func(st any) []Obs {
			var r []Obs
			for _, f := range get(st, which).Obs {
				r = append(r, valObs(f())...)
			}
			get(st, which).Str()
			return r
		}}, Act{k.Name + ".Clear", func(st any) []Obs { get(st, which).Clear(); return nil }})
		return p
	}
	sc.Threads = [][]Act{prog(0, ka, pa), prog(1, kb, pb)}
	return sc
}

func p15conc() *rt.Check {
	return &rt.Check{Property: "P15",
		Rule:   concRule + "; two separately constructed objects, one goroutine each (the second, or both, also constructed inside its goroutine; and every pair out of 23 merges, shared cores, rejected configurations and uses of other objects), package-level state restored before every schedule: no data race, every result as if the other object did not exist",
		Bounds: concBounds("all pairs of ~45 kinds, programs of 1-2 pushes, all queries, clear; every schedule up to commutation, over 300 of them up to 1 preemption", "programs of 3 pushes; every schedule up to commutation, over 3000 of them up to 2 preemptions"),
		Jobs: func(tier string) []rt.Job {
			var js []rt.Job
			im := impls()
			ks := []*Kind{kMinMax(false, 2, false), kMinMax(true, 0, true), kQuantile(2, im[1], iLinear, phis[:2]), kQuantile(0, im[3], iLinear, phis[:2]), kMedian(2, im[2]), kMedian(3, im[0]), kIQR(2, im[1]), kHeapMedian(2, false), kHeapMedian(0, true),
				kMean(2), kMean(0), kMomentK(2, 2), kMomentK(7, 0), kStd(2), kSkew(3), kKurt(3), kCore(nil, 2, 0), kCore([]int{2, 5}, 2, 0), kCore([]int{12}, 0, 0), kCore([]int{30}, 3, 0), kCore([]int{3}, 0, 0.3),
				kEWMA(0.3), kEWMMoment(3, 0.5), kEWMMoment(25, 0.3), kEWMStd(0.3), kCov(2), kCov(0), kCorr(2), kEWMCov(0.3), kEWMCorr(0.5), kJCore([][]int{{2, 2}}, 0, 2, 0), kJCore([][]int{{2, 1}, {1, 2}}, 0, 0, 0),
				kJCore([][]int{{1, 1, 1}}, 0, 2, 0), kJCore(nil, 3, 2, 0), kJCore([][]int{{6, 6}}, 0, 0, 0), kAuto(false, 1, 2, false), kAuto(true, 2, 2, false), kAuto(false, 0, 0, true),
				kAgg(kMinMax(false, 2, false), kMean(2)), kJAgg(kCov(2), kCorr(2))}
			// the default random source of the skip list
			ks = append(ks, kQuantile(2, implCfg{"skip-default", func() []quantile.Option { return []quantile.Option{quantile.ImplOption(quantile.SkipList)} }}, iLinear, phis[:2]))
			j := judge{race: true, lin: true, apart: true, bound: pick(tier, 1, 2), cap: pick(tier, 300, 3000)}
			ls := lives()
			for i := range ls {
				i := i
				js = append(js, rt.Job{Name: "concurrently: " + ls[i].name, Run: func(c *rt.C) {
					for k := i; k < len(ls); k++ {
						k := k
						act := func(n int) []Act {
							return []Act{{ls[n].name, func(any) []Obs { ls[n].do(); return nil }}}
						}
						sc := &Scn{Name: "concurrently: " + ls[i].name + " / " + ls[k].name, Mk: func() any { return &pairState{} }, Threads: [][]Act{act(i), act(k)}}
						explore(c, sc, j)
						if c.R.Capped {
							return
						}
					}
				}})
			}
			for i, a := range ks {
				a, i := a, i
				js = append(js, rt.Job{Name: "concurrent pairs with " + a.Name, Run: func(c *rt.C) {
					n := pick(tier, 2, 3)
					for _, b := range ks[i:] {
						for late := 0; late <= 2; late++ {
							nn := n
							if a.Family == "Aggregate" || b.Family == "Aggregate" || a.Family == "JointAggregate" || b.Family == "JointAggregate" {
								nn = 1
							}
							sc := pairScn(fmt.Sprintf("%s with %s (constructed inside the goroutines: %d)", a.Name, b.Name, late), a, b, late, pushVals(a, nn), pushVals(b, nn))
							explore(c, sc, j)
							if c.R.Capped {
								return
							}
						}
					}
					c.Sample(fmt.Sprintf("%s in one goroutine, each of %d kinds in another", a.Name, len(ks)-i))
				}})
			}
			return js
		}}
}

// ---- P23 --------------------------------------------------------------------

type lockCore interface {
	RLock()
	RUnlock()
	Lock()
	Unlock()
}

// unsafeQ lists the lock-free queries of a core.
func unsafeQ(core any, k *Kind) []func() (float64, error) {
	var r []func() (float64, error)
	switch m := core.(type) {
	case *moment.Core:
		r = append(r, func() (float64, error) { return float64(m.UnsafeCount()), nil }, m.UnsafeMean)
		for p := 2; p <= 5; p++ {
			p := p
			r = append(r, func() (float64, error) { return m.UnsafeSum(p) })
		}
	case *joint.Core:
		r = append(r, func() (float64, error) { return float64(m.UnsafeCount()), nil })
		for v := 0; v < k.Arity; v++ {
			v := v
			r = append(r, func() (float64, error) { return m.UnsafeMean(v) })
		}
		if k.Arity == 2 {
			for _, t := range [][]int{{1, 1}, {2, 0}, {0, 2}, {2, 1}, {1, 2}} {
				t := t
				r = append(r, func() (float64, error) { return m.UnsafeSum(t...) })
			}
		}
	}
	return r
}

// section runs steps (0 query, 1 push, 2 clear) between the lock calls, with a
// scheduling point before each.
func section(k *Kind, write bool, steps []int, x []float64) Act {
	name := "["
	if write {
		name += "Lock"
	} else {
		name += "RLock"
	}
	for _, s := range steps {
		name += []string{" queries", fmt.Sprintf(" UnsafePush%v", x), " UnsafeClear"}[s]
	}
	name += "]"
	return Act{name, func(st any) []Obs {
		core := st.(*Obj).Keep
		l := core.(lockCore)
		if write {
			l.Lock()
		} else {
			l.RLock()
		}
		var r []Obs
		for _, s := range steps {
			vsync.Yield("inside the section")
			switch s {
			case 0:
				for _, f := range unsafeQ(core, k) {
					r = append(r, valObs(f())...)
					if len(steps) == 1 {
						vsync.Yield("inside the section")
					}
				}
			case 1:
				r = append(r, errObs(uPush(core, x))...)
			case 2:
				uClear(core)
			}
		}
		vsync.Yield("inside the section")
		if write {
			l.Unlock()
		} else {
			l.RUnlock()
		}
		return r
	}}
}

func p23() *rt.Check {
	return &rt.Check{Property: "P23",
		Rule:   concRule + "; explicit lock sections count as one call, with a scheduling point before every lock-free operation inside: for every schedule the results equal those of some one-at-a-time order in which each section is a single step; no race, no deadlock; readers meet inside their sections (a section that waits for another reader inside its section must always get through), pushes never complete while a read section is open",
		Bounds: concBounds("moment and joint cores, windows 0-2, with and without decay; sections of up to 2 steps against sections and programs of up to 2 ordinary calls, three threads with one each", "sections of up to 3 steps, windows 0-3"),
		Jobs: func(tier string) []rt.Job {
			var js []rt.Job
			j := judge{race: true, lin: true, dead: true, bound: pick(tier, 2, 3), cap: pick(tier, 3000, 60000)}
			var ks []*Kind
			for _, w := range []int{0, 1, 2, 3} {
				if w < 3 || tier == "thorough" {
					ks = append(ks, kCore([]int{2, 5}, w, 0), kCore(nil, w, 0), kJCore(jsets[2], 0, w, 0), kJCore(jsets[3], 0, w, 0), kJCore(nil, 3, w, 0))
				}
			}
			ks = append(ks, kCore([]int{2, 4}, 0, 0.3), kJCore([][]int{{2, 1}, {1, 2}}, 0, 0, 0.3))
			for _, k := range ks {
				k := k
				js = append(js, rt.Job{Name: k.Name, Run: func(c *rt.C) {
					for _, warm := range []int{0, 2} {
						base := kindSet(k, warm)
						pv := pushVals(k, 24)
						s := &scnSet{name: base.name, mk: base.mk, final: base.final}
						var ro, wr [][]int
						for l := 1; l <= pick(tier, 2, 3); l++ {
							words(3, l, func(w []int) bool { wr = append(wr, append([]int{}, w...)); return true })
						}
						ro = [][]int{{0}, {0, 0}}
						if tier == "thorough" {
							ro = append(ro, []int{0, 0, 0})
						}
						nsec := len(ro) + len(wr)
						s.acts = func(t, i int) []Act {
							var as []Act
							for _, x := range ro {
								as = append(as, section(k, false, x, nil))
							}
							for _, x := range wr {
								as = append(as, section(k, true, x, pv[9+3*t+i]))
							}
							return append(as, base.acts(t, i)...)
						}
						for a := 0; a < nsec; a++ {
							s.n = nsec
							for b := a; b < nsec; b++ {
								s.add([]int{a}, []int{b})
							}
							for x := 0; x < 4 && x < 3+len(k.ObsNm); x++ {
								for y := 0; y < 4 && y < 3+len(k.ObsNm); y++ {
									s.add([]int{a}, []int{nsec + x, nsec + y})
								}
								s.add([]int{a}, []int{nsec + x}, []int{0})
								s.add([]int{a}, []int{nsec + x}, []int{nsec})
							}
							for q := 0; q < len(k.ObsNm); q++ {
								s.add([]int{a}, []int{nsec + 2 + q})
							}
						}
						runScns(c, s.out, j)
						if c.R.Capped {
							return
						}
					}
				}})
				js = append(js, rt.Job{Name: k.Name + " readers meet", Run: func(c *rt.C) { runScns(c, meetScns(k, func(st any) lockR { return st.(*Obj).Keep.(lockR) }), j) }})
			}
			im := impls()
			for i, w := range []int{0, 1, 2} {
				k := kQuantile(w, im[i+1], iLinear, phis[:2])
				js = append(js, rt.Job{Name: k.Name + " readers meet", Run: func(c *rt.C) { runScns(c, meetScns(k, func(st any) lockR { return st.(*Obj).Keep.(lockR) }), j) }})
			}
			return js
		}}
}

type lockR interface {
	RLock()
	RUnlock()
}

type meetState struct {
	o        *Obj
	wg       vsync.WaitGroup
	done     vsync.Mutex
	n, begun int
}

// meetScns: readers that wait for each other inside their sections; pushes that
// must not complete inside a read section.
func meetScns(k *Kind, lk func(any) lockR) []*Scn {
	pv := pushVals(k, 24)
	var out []*Scn
	for _, warm := range []int{0, 2} {
		for _, readers := range []int{2, 3} {
			warm, readers := warm, readers
			mk := func() any {
				o, err := k.Mk()
				must(err)
				for i := 0; i < warm; i++ {
					must(o.Push(append([]float64(nil), pv[23-i]...)))
				}
				st := &meetState{o: o}
				st.wg.Add(readers)
				return st
			}
			rd := Act{"[RLock, wait for all readers, RUnlock]", func(st any) []Obs {
				m := st.(*meetState)
				l := lk(m.o)
				l.RLock()
				m.wg.Done()
				m.wg.Wait()
				l.RUnlock()
				return nil
			}}
			sc := &Scn{Name: fmt.Sprintf("%s after %d pushes: %d readers meet", k.Name, warm, readers), Mk: mk}
			for i := 0; i < readers; i++ {
				sc.Threads = append(sc.Threads, []Act{rd})
			}
			sc.NoSeq = true
			out = append(out, sc)
		}
		// nothing completes inside a read section
		warm := warm
		for _, upd := range []string{"Push", "Clear"} {
			upd := upd
			mk := func() any {
				o, err := k.Mk()
				must(err)
				for i := 0; i < warm; i++ {
					must(o.Push(append([]float64(nil), pv[23-i]...)))
				}
				return &meetState{o: o}
			}
			up := Act{upd, func(st any) []Obs {
				m := st.(*meetState)
				var err error
				if upd == "Push" {
					err = m.o.Push(append([]float64(nil), pv[3]...))
				} else {
					m.o.Clear()
				}
				m.done.Lock()
				m.n++
				m.done.Unlock()
				return errObs(err)
			}}
			// an update may have completed before the section without having been
			// counted, so only an update that BEGAN inside matters: the counter of
			// begun updates is read first
			begun := Act{upd + " (begin and end counted)", func(st any) []Obs {
				m := st.(*meetState)
				m.done.Lock()
				m.begun++
				m.done.Unlock()
				return up.F(st)
			}}
			sec2 := Act{"[RLock, no update begun and completed inside, RUnlock]", func(st any) []Obs {
				m := st.(*meetState)
				l := lk(m.o)
				l.RLock()
				m.done.Lock()
				b0 := m.begun
				m.done.Unlock()
				m.done.Lock()
				inside := 0.0
				if b0 == 0 && m.n > 0 {
					inside = 1
				}
				m.done.Unlock()
				l.RUnlock()
				return []Obs{{V: inside}}
			}}
			sc := &Scn{Name: fmt.Sprintf("%s after %d pushes: %s against a read section", k.Name, warm, upd), Mk: mk, Threads: [][]Act{{sec2}, {begun}}}
			sc.NoSeq = true
			sc.Check = func(st any, res [][]Obs) string {
				if res[0][0].V != 0 {
					return upd + " began and completed while another goroutine held the read lock"
				}
				return ""
			}
			out = append(out, sc)
		}
	}
	return out
}
