//go:build go1.22

package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"

	"github.com/alexander-yu/stream"
	"github.com/alexander-yu/stream/aggregate"
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/minmax"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/quantile/skiplist"
	"github.com/alexander-yu/stream/sample"
	"github.com/alexander-yu/stream/zzverif/rt"
)

// ---- P19 aliasing -----------------------------------------------------------

// reuse pushes every history through one slice that the caller keeps changing.
func reuse(c *rt.C, k *Kind, alpha []Step, depth int) {
	for d := 1; d <= depth; d++ {
		words(len(alpha), d, func(w []int) bool {
			if c.Expired() {
				c.Cap("time")
				return false
			}
			a, b := newRun(c, k), newRun(c, k)
			c.Label(func() string { return k.Name + ": " + shortTrace(a.steps) })
			buf := make([]float64, k.Arity, k.Arity+3)
			spare := buf[:k.Arity+3]
			for _, x := range w {
				s := alpha[x]
				a.Do(s)
				b.steps = append(b.steps, s)
				b.guard("push", func() {
					if s.Clear {
						b.o.Clear()
						return
					}
					copy(buf, s.X)
					for i := k.Arity; i < len(spare); i++ {
						spare[i] = 77
					}
					must(b.o.Push(buf))
					for i, v := range s.X {
						if buf[i] != v {
							c.Violate(k.Name+"/alters", fmt.Sprintf("%s: Push changed its argument %v to %v", k.Name, s.X, buf), traceStr(b.steps))
						}
					}
					for i := k.Arity; i < len(spare); i++ {
						if spare[i] != 77 {
							c.Violate(k.Name+"/alters", fmt.Sprintf("%s: Push wrote beyond its argument", k.Name), traceStr(b.steps))
						}
					}
					for i := range spare {
						spare[i] = math.NaN()
					}
				})
				c.R.States++
			}
			x, y := a.Look(), b.Look()
			c.R.Evals++
			c.R.Traces++
			if i := sameObs(x, y); i >= 0 {
				c.Violate(k.Name+"/retains", fmt.Sprintf("%s.%s = %s when the pushed slice is overwritten after each call, %s when it is not", k.Name, k.ObsNm[i], fmtObs(y[i]), fmtObs(x[i])), traceStr(a.steps))
			}
			return true
		})
	}
	c.Outcome(k.Name)
	c.Sample(fmt.Sprintf("%s: all histories of up to %d pushes through one reused slice", k.Name, depth))
}

// tamper builds an object, runs a history and at one position applies a change
// to caller-owned data; the observations must equal those of the untampered run.
type tamper struct {
	name  string
	mk    func() (*Obj, []sideOp) // the object and the changes the caller may make
	alpha []Step
}

func tamperRun(c *rt.C, t tamper, depth int) {
	words(len(t.alpha), depth, func(w []int) bool {
		if c.Expired() {
			c.Cap("time")
			return false
		}
		rt.Tick()
		run := func(op, pos int) ([]Obs, string, []string, int) {
			var tr []string
			var out []Obs
			var str string
			n := 0
			safely(c, t.name, "a call", tr, func() {
				o, ops := t.mk()
				n = len(ops)
				for i := 0; i <= depth; i++ {
					if i == pos {
						tr = append(tr, "caller: "+ops[op].name)
						ops[op].f()
					}
					if i < depth {
						s := t.alpha[w[i]]
						tr = append(tr, s.String())
						c.R.Transitions++
						if s.Clear {
							o.Clear()
						} else if err := o.Push(s.X); err != nil {
							out = append(out, Obs{V: -1, Err: true})
						}
					}
				}
				for _, f := range o.Obs {
					v, err := f()
					out = append(out, Obs{v, err != nil})
				}
				str = o.Str()
			})
			return out, str, tr, n
		}
		want, ws, _, n := run(0, -1)
		for op := 0; op < n; op++ {
			for pos := 0; pos <= depth; pos++ {
				got, gs, tr, _ := run(op, pos)
				c.R.States++
				c.R.Evals++
				c.R.Traces++
				if len(got) != len(want) || sameObs(got, want) >= 0 || gs != ws {
					c.Violate(t.name, fmt.Sprintf("%s: observations %s %q; without the caller's change %s %q", t.name, fmtAll(got), gs, fmtAll(want), ws), tr)
				}
			}
		}
		return true
	})
	c.Outcome(t.name)
	c.Sample(fmt.Sprintf("%s: every history of %d steps, every caller-side change at every position", t.name, depth))
}

func fmtAll(o []Obs) string {
	var p []string
	for _, x := range o {
		p = append(p, fmtObs(x))
	}
	return "[" + strings.Join(p, " ") + "]"
}

func tampers(tier string) []tamper {
	var ts []tamper
	a1 := withClear(vsteps(1, 1, -3))
	a2 := withClear(allSteps(kCov(2), []float64{1, -3}))
	mom := func(w int, d float64) tamper {
		return tamper{fmt.Sprintf("moment.NewCore(w=%d,decay=%g) and its config", w, d), func() (*Obj, []sideOp) {
			win, dec := w, d
			sums := moment.SumsConfig{2: true, 3: true}
			cfg := &moment.CoreConfig{Window: &win, Sums: sums}
			if d != 0 {
				cfg.Decay = &dec
			}
			keep := deepMoment(cfg)
			core, err := moment.NewCore(cfg)
			must(err)
			if !reflect.DeepEqual(keep, deepMoment(cfg)) {
				panic("NewCore altered the configuration passed in")
			}
			o := &Obj{Push: one(core.Push), Clear: core.Clear, Str: func() string { return "" }}
			o.Obs = append(o.Obs, func() (float64, error) { return float64(core.Count()), nil }, core.Mean, func() (float64, error) { return core.Sum(2) }, func() (float64, error) { return core.Sum(3) }, func() (float64, error) { return core.Sum(4) })
			return o, []sideOp{{"*Window=7", func() { win = 7 }}, {"*Window=1", func() { win = 1 }}, {"*Decay=0.9", func() { dec = 0.9 }}, {"Sums[4]=true", func() { sums[4] = true }},
				{"delete Sums", func() { delete(sums, 2); delete(sums, 3) }}, {"zero the config", func() { *cfg = moment.CoreConfig{} }}}
		}, a1}
	}
	jnt := func(w int, d float64, withVars bool) tamper {
		return tamper{fmt.Sprintf("joint.NewCore(w=%d,decay=%g,vars=%v) and its config", w, d, withVars), func() (*Obj, []sideOp) {
			win, dec, vars := w, d, 2
			t1, t2 := joint.Tuple{1, 1}, joint.Tuple{2, 0}
			sums := make(joint.SumsConfig, 2, 4)
			sums[0], sums[1] = t1, t2
			cfg := &joint.CoreConfig{Window: &win, Sums: sums}
			if withVars {
				cfg.Vars = &vars
			}
			if d != 0 {
				cfg.Decay = &dec
			}
			keep := deepJoint(cfg)
			core, err := joint.NewCore(cfg)
			must(err)
			if !reflect.DeepEqual(keep, deepJoint(cfg)) {
				panic("NewCore altered the configuration passed in")
			}
			o := &Obj{Push: func(x []float64) error { return core.Push(x...) }, Clear: core.Clear, Str: func() string { return "" }}
			o.Obs = append(o.Obs, func() (float64, error) { return float64(core.Count()), nil }, func() (float64, error) { return core.Mean(0) }, func() (float64, error) { return core.Mean(1) })
			for _, t := range [][]int{{1, 1}, {2, 0}, {0, 2}, {3, 0}, {2, 2}} {
				t := t
				o.Obs = append(o.Obs, func() (float64, error) { return core.Sum(t...) })
			}
			return o, []sideOp{{"*Window=7", func() { win = 7 }}, {"*Window=1", func() { win = 1 }}, {"*Decay=0.9", func() { dec = 0.9 }}, {"*Vars=5", func() { vars = 5 }},
				{"tuple {2,2}", func() { t1[0], t1[1] = 2, 2 }}, {"tuple {0,0}", func() { t2[0] = 0 }}, {"tuple shrunk", func() { t1[0], t1[1] = 0, 1 }}, {"Sums[1]={3,0}", func() { sums[1] = joint.Tuple{3, 0} }},
				{"Sums[0]=nil", func() { sums[0] = nil }}, {"zero the config", func() { *cfg = joint.CoreConfig{} }}}
		}, a2}
	}
	for _, w := range []int{0, 1, 2, 3} {
		ts = append(ts, mom(w, 0), jnt(w, 0, false), jnt(w, 0, true))
	}
	ts = append(ts, mom(0, 0.3), jnt(0, 0.3, true))

	// the configuration handed out by a metric, before and after setup
	for _, w := range allWraps([]int{0, 1, 2, 3}, []float64{0.3}) {
		w := w
		al := a1
		if w.arity == 2 {
			al = a2
		}
		for _, early := range []bool{false, true} {
			early := early
			ts = append(ts, tamper{fmt.Sprintf("%s and its Config() (changed early: %v)", w.name, early), func() (*Obj, []sideOp) {
				m := w.mk()
				var ops []sideOp
				grab := func() {
					switch x := m.(type) {
					case moment.CoreWrapper:
						cf := x.Config()
						ops = append(ops, sideOp{"*Config().Window=9", func() { *cf.Window = 9 }}, sideOp{"*Config().Window=-1", func() { *cf.Window = -1 }}, sideOp{"Config().Sums[9]=true", func() {
							if cf.Sums != nil {
								cf.Sums[9] = true
								delete(cf.Sums, 2)
							}
						}}, sideOp{"*Config().Decay=5", func() {
							if cf.Decay != nil {
								*cf.Decay = 5
							}
						}})
					case joint.CoreWrapper:
						cf := x.Config()
						ops = append(ops, sideOp{"*Config().Window=9", func() { *cf.Window = 9 }}, sideOp{"*Config().Window=-1", func() { *cf.Window = -1 }}, sideOp{"Config().Sums[0]", func() {
							if len(cf.Sums) > 0 && len(cf.Sums[0]) > 0 {
								cf.Sums[0][0] = 7
								cf.Sums[len(cf.Sums)-1] = nil
							}
						}}, sideOp{"*Config().Decay=5", func() {
							if cf.Decay != nil {
								*cf.Decay = 5
							}
						}})
					}
				}
				grab()
				if early {
					for _, op := range ops {
						op.f()
					}
				}
				must(wInit(m))
				grab()
				return wrapObj(m), ops
			}, al})
		}
	}

	// option lists
	for _, w := range []int{0, 2, 3} {
		w := w
		type qctor struct {
			name string
			f    func(opts ...quantile.Option) (*Obj, error)
		}
		cts := []qctor{
			{"quantile.New", func(opts ...quantile.Option) (*Obj, error) {
				q, err := quantile.New(w, opts...)
				if err != nil {
					return nil, err
				}
				return &Obj{Push: one(q.Push), Clear: q.Clear, Str: q.String, Obs: []func() (float64, error){func() (float64, error) { return q.Value(0.3) }, func() (float64, error) { return q.Value(0.5) }}}, nil
			}},
			{"quantile.NewMedian", func(opts ...quantile.Option) (*Obj, error) {
				q, err := quantile.NewMedian(w, opts...)
				if err != nil {
					return nil, err
				}
				return simple(q), nil
			}},
			{"quantile.NewIQR", func(opts ...quantile.Option) (*Obj, error) {
				q, err := quantile.NewIQR(w, opts...)
				if err != nil {
					return nil, err
				}
				return simple(q), nil
			}},
		}
		if w == 0 {
			cts = append(cts, qctor{"quantile.NewGlobalMedian", func(opts ...quantile.Option) (*Obj, error) {
				q, err := quantile.NewGlobalMedian(opts...)
				if err != nil {
					return nil, err
				}
				return simple(q), nil
			}}, qctor{"quantile.NewGlobalIQR", func(opts ...quantile.Option) (*Obj, error) {
				q, err := quantile.NewGlobalIQR(opts...)
				if err != nil {
					return nil, err
				}
				return simple(q), nil
			}})
		}
		for _, ct := range cts {
			ct := ct
			ts = append(ts, tamper{fmt.Sprintf("%s(w=%d) and its option list", ct.name, w), func() (*Obj, []sideOp) {
				full := make([]quantile.Option, 3, 6)
				calls := 0
				mark := func(q *quantile.Quantile) error { calls++; return nil }
				inner := []order.Option{skiplist.MaxLevelOption(2), skiplist.RandOption(randLevels(2, 1, 2))}
				full[0] = quantile.ImplOption(quantile.SkipList, inner...)
				full[1] = quantile.InterpolationOption(quantile.Lower)
				full[2] = quantile.Option(mark)
				spare := full[:6]
				for i := 3; i < 6; i++ {
					spare[i] = nil
				}
				was := [3]uintptr{}
				for i := range was {
					was[i] = reflect.ValueOf(full[i]).Pointer()
				}
				o, err := ct.f(full...)
				must(err)
				for i := 3; i < 6; i++ {
					if spare[i] != nil {
						panic("the constructor wrote into the caller's option slice beyond its length")
					}
				}
				for i := range was {
					if reflect.ValueOf(full[i]).Pointer() != was[i] {
						panic("the constructor altered the caller's option slice")
					}
				}
				return o, []sideOp{
					{"options replaced", func() {
						full[0] = quantile.ImplOption(quantile.AVL)
						full[1] = quantile.InterpolationOption(quantile.Higher)
					}},
					{"options cleared", func() { full[0], full[1], full[2] = nil, nil, nil }},
					{"structure options cleared", func() { inner[0], inner[1] = nil, nil }},
				}
			}, withClear(vsteps(1, 1, -3, 2))})
		}
		// ImplOption keeps the structure options until the constructor runs
		ts = append(ts, tamper{fmt.Sprintf("ImplOption(w=%d) and its option list, changed before the constructor runs", w), func() (*Obj, []sideOp) {
			inner := make([]order.Option, 2, 4)
			inner[0], inner[1] = skiplist.MaxLevelOption(2), skiplist.RandOption(randLevels(2, 1, 2))
			opt := quantile.ImplOption(quantile.SkipList, inner...)
			inner[0] = skiplist.MaxLevelOption(-5)
			inner[1] = func(order.Statistic) error { return fmt.Errorf("must not be used") }
			q, err := quantile.New(w, opt)
			must(err)
			return &Obj{Push: one(q.Push), Clear: q.Clear, Str: q.String, Obs: []func() (float64, error){func() (float64, error) { return q.Value(0.3) }}}, []sideOp{{"nothing", func() {}}}
		}, withClear(vsteps(1, 1, -3, 2))})
	}

	// aggregates: the slice of metrics and the returned maps
	ts = append(ts, tamper{"aggregate and its slice of metrics / its result", func() (*Obj, []sideOp) {
		mn, err := minmax.NewMin(2)
		must(err)
		me := moment.NewMean(2)
		must(moment.Init(me))
		other := minmax.NewGlobalMax()
		list := make([]stream.SimpleMetric, 2, 4)
		list[0], list[1] = mn, me
		a := aggregate.NewSimpleAggregateMetric(list...)
		o := &Obj{Push: one(a.Push), Clear: a.Clear, Str: func() string { return "" }}
		o.Obs = append(o.Obs, func() (float64, error) { v, err := a.Values(); return float64(len(v)), err })
		for _, n := range []string{mn.String(), me.String()} {
			n := n
			o.Obs = append(o.Obs, func() (float64, error) {
				v, err := a.Values()
				if err != nil {
					return 0, err
				}
				x, ok := v[n]
				if !ok {
					return -99, nil
				}
				return x, nil
			})
		}
		return o, []sideOp{{"metrics[0] replaced", func() { list[0] = other }}, {"metrics reversed", func() { list[0], list[1] = list[1], list[0] }}, {"metrics nil", func() { list[0] = nil }},
			{"result map altered", func() {
				v, _ := a.Values()
				if v != nil {
					v[mn.String()] = 1e9
					delete(v, me.String())
					v["x"] = 1
				}
			}}}
	}, a1}, tamper{"joint aggregate and its slice of metrics / its result", func() (*Obj, []sideOp) {
		cv, cr := joint.NewCov(2), joint.NewCorr(3)
		must(joint.Init(cv))
		must(joint.Init(cr))
		other := joint.NewCov(5)
		must(joint.Init(other))
		list := make([]stream.SimpleJointMetric, 2, 4)
		list[0], list[1] = cv, cr
		a := aggregate.NewSimpleJointAggregateMetric(list...)
		o := &Obj{Push: func(x []float64) error { return a.Push(x...) }, Clear: a.Clear, Str: func() string { return "" }}
		o.Obs = append(o.Obs, func() (float64, error) { v, err := a.Values(); return float64(len(v)), err })
		for _, n := range []string{cv.String(), cr.String()} {
			n := n
			o.Obs = append(o.Obs, func() (float64, error) {
				v, err := a.Values()
				if err != nil {
					return 0, err
				}
				x, ok := v[n]
				if !ok {
					return -99, nil
				}
				return x, nil
			})
		}
		return o, []sideOp{{"metrics[0] replaced", func() { list[0] = other }}, {"metrics reversed", func() { list[0], list[1] = list[1], list[0] }}, {"metrics nil", func() { list[0] = nil }},
			{"result map altered", func() {
				v, _ := a.Values()
				if v != nil {
					v[cv.String()] = 1e9
					delete(v, cr.String())
				}
			}}}
	}, a2})

	// merged configurations
	for n := 1; n <= 3; n++ {
		n := n
		ts = append(ts, tamper{fmt.Sprintf("moment.MergeConfigs of %d and its arguments", n), func() (*Obj, []sideOp) {
			var cfgs []*moment.CoreConfig
			for i := 0; i < n; i++ {
				cfgs = append(cfgs, &moment.CoreConfig{Window: stream.IntPtr(3), Sums: moment.SumsConfig{2 + i: true}})
			}
			m, err := moment.MergeConfigs(cfgs...)
			must(err)
			for _, x := range cfgs {
				*x.Window = 1
				x.Sums[9] = true
				delete(x.Sums, 2)
			}
			keep := []moment.CoreConfig{}
			for _, x := range cfgs {
				keep = append(keep, deepMoment(x))
			}
			core, err := moment.NewCore(m)
			must(err)
			m.Sums[12] = true
			*m.Window = 77
			for i, x := range cfgs {
				if !reflect.DeepEqual(keep[i], deepMoment(x)) {
					panic("changing the merged configuration changed an argument of MergeConfigs")
				}
			}
			o := &Obj{Push: one(core.Push), Clear: core.Clear, Str: func() string { return "" }}
			o.Obs = append(o.Obs, func() (float64, error) { return float64(core.Count()), nil }, func() (float64, error) { return core.Sum(2) }, func() (float64, error) {
				_, err := core.Sum(9)
				if err == nil {
					panic("the merged configuration followed a later change of an argument")
				}
				if core.Count() > 3 {
					panic("wrong window")
				}
				return 0, nil
			})
			return o, []sideOp{{"Window", func() { *cfgs[0].Window = 2 }}}
		}, a1})
		ts = append(ts, tamper{fmt.Sprintf("joint.MergeConfigs of %d and its arguments", n), func() (*Obj, []sideOp) {
			var cfgs []*joint.CoreConfig
			for i := 0; i < n; i++ {
				cfgs = append(cfgs, &joint.CoreConfig{Window: stream.IntPtr(3), Vars: stream.IntPtr(2), Sums: joint.SumsConfig{{1 + i, 1}}})
			}
			m, err := joint.MergeConfigs(cfgs...)
			must(err)
			for _, x := range cfgs {
				*x.Window = 1
				*x.Vars = 3
				x.Sums[0][0] = 8
			}
			keep := []joint.CoreConfig{}
			for _, x := range cfgs {
				keep = append(keep, deepJoint(x))
			}
			core, err := joint.NewCore(m)
			must(err)
			*m.Window = 77
			m.Sums[0][0] = 5
			for i, x := range cfgs {
				if !reflect.DeepEqual(keep[i], deepJoint(x)) {
					panic("changing the merged configuration changed an argument of MergeConfigs")
				}
			}
			o := &Obj{Push: func(x []float64) error { return core.Push(x...) }, Clear: core.Clear, Str: func() string { return "" }}
			o.Obs = append(o.Obs, func() (float64, error) { return float64(core.Count()), nil }, func() (float64, error) { return core.Sum(1, 1) }, func() (float64, error) {
				_, err := core.Sum(8, 1)
				if err == nil {
					panic("the merged configuration followed a later change of an argument")
				}
				if core.Count() > 3 {
					panic("wrong window")
				}
				return 0, nil
			})
			return o, []sideOp{{"Window", func() { *cfgs[0].Window = 2 }}, {"tuple", func() { m.Sums[0][1] = 4 }}}
		}, a2})
	}

	// query arguments and lock-free variants
	for _, w := range []int{0, 1, 2} {
		w := w
		ts = append(ts, tamper{fmt.Sprintf("joint core (w=%d) query tuples and UnsafePush slices", w), func() (*Obj, []sideOp) {
			core, err := joint.NewCore(&joint.CoreConfig{Window: stream.IntPtr(w), Sums: joint.SumsConfig{{2, 1}}})
			must(err)
			q := []int{2, 1}
			last := make([]float64, 2)
			o := &Obj{Push: func(x []float64) error {
				copy(last, x)
				core.Lock()
				defer core.Unlock()
				return core.UnsafePush(last...)
			}, Clear: core.Clear, Str: func() string { return "" }}
			o.Obs = append(o.Obs, func() (float64, error) {
				v, err := core.Sum(q...)
				if q[0] != 2 || q[1] != 1 {
					panic("Sum altered its argument")
				}
				return v, err
			}, func() (float64, error) { return core.Sum(1, 1) }, func() (float64, error) { return core.Mean(0) })
			return o, []sideOp{{"pushed slice", func() { last[0], last[1] = 1e6, math.NaN() }},
				{"query tuple after use", func() {
					t := []int{2, 1}
					_, _ = core.Sum(t...)
					t[0], t[1] = 9, 9
				}}}
		}, a2})
	}
	return ts
}

func reservoirAlias(c *rt.C, size, n int) {
	// every history of pushes and (tampered) samples
	words(3, n, func(w []int) bool {
		rt.Tick()
		r := &sample.Reservoir{Size: size}
		var held [][]interface{}
		var copies [][]interface{}
		next := 0
		var tr []string
		safely(c, "Reservoir", "a call", tr, func() {
			for _, x := range w {
				c.R.Transitions++
				switch x {
				case 0:
					next++
					r.Push(next)
					tr = append(tr, fmt.Sprintf("Push(%d)", next))
				case 1: // keep a sample and look whether it changes
					s := r.Sample()
					held = append(held, s)
					copies = append(copies, append([]interface{}{}, s...))
					tr = append(tr, "s := Sample()")
				case 2: // spoil a sample
					s := r.Sample()
					for i := range s {
						s[i] = "spoilt"
					}
					_ = append(s, "spoilt")
					tr = append(tr, "overwrite and append to Sample()")
				}
			}
			for i, s := range held {
				if len(s) != len(copies[i]) || !reflect.DeepEqual(append([]interface{}{}, s...), copies[i]) {
					c.Violate("reservoir/result", fmt.Sprintf("a sample taken earlier changed from %v to %v", copies[i], s), tr)
				}
			}
			for _, x := range r.Sample() {
				if x == "spoilt" {
					c.Violate("reservoir/shared", "overwriting a returned sample changed the reservoir", tr)
				}
			}
			if got, want := len(r.Sample()), min(next, max(size, 0)); got != want {
				c.Violate("reservoir/size", fmt.Sprintf("%d items after %d pushes, size %d", got, next, size), tr)
			}
		})
		c.R.States++
		c.R.Evals++
		c.R.Traces++
		return true
	})
	c.Outcome(fmt.Sprint(size))
	c.Sample(fmt.Sprintf("reservoir of size %d: all histories of %d pushes, kept samples and spoilt samples", size, n))
}

func p19() *rt.Check {
	return &rt.Check{Property: "P19",
		Rule: "every history up to the depth in which the caller pushes through one slice it keeps overwriting; and for every argument or result of reference type (configurations, tuples, power sets, pointers, option lists with spare capacity, metric lists, value maps, samples, query tuples): every caller-side change at every position of every history, compared with the history without the change; arguments checked for changes after each call",
		Bounds: func(t string) string {
			return "windows 0-3; reused slices: all histories of <= 6 (thorough 8) steps; each change at each position of all histories of 4 (thorough 6) steps"
		},
		Assumptions: []string{"a *rand.Rand given to a skip list and items given to a reservoir are handed over by design"},
		Jobs: func(tier string) []rt.Job {
			var js []rt.Job
			ks := []*Kind{}
			for w := 0; w <= 3; w++ {
				ks = append(ks, kCov(w), kCorr(w), kJAgg(kCov(w), kCorr(w)), kJCore(nil, 3, w, 0))
				ks = append(ks, unsafeCores(w)[1])
				for _, s := range jsets[:10] {
					ks = append(ks, kJCore(s, 0, w, 0))
				}
			}
			ks = append(ks, kEWMCov(0.3), kEWMCorr(0.3), kJCore(jsets[2], 0, 0, 0.3))
			for _, k := range ks {
				k := k
				js = append(js, rt.Job{Name: k.Name + "/reuse", Run: func(c *rt.C) {
					reuse(c, k, withClear(allSteps(k, []float64{1, -3})), pick(tier, 6, 8))
				}})
			}
			for _, t := range tampers(tier) {
				t := t
				js = append(js, rt.Job{Name: t.name, Run: func(c *rt.C) { tamperRun(c, t, pick(tier, 4, 6)) }})
			}
			for _, s := range []int{0, 1, 2, 3} {
				s := s
				js = append(js, rt.Job{Name: fmt.Sprintf("reservoir/%d", s), Run: func(c *rt.C) { reservoirAlias(c, s, pick(tier, 8, 10)) }})
			}
			return js
		}}
}

// ---- P22 --------------------------------------------------------------------

// sound adds the sign and NaN rules to a run.
func sound(c *rt.C, k *Kind, r *Run, got []Obs) {
	n := len(lastw(r.hist, k.Window))
	if k.Lag > 0 || k.Family == "Autocov" || k.Family == "Autocorr" {
		n = len(lastw(lagPairs(r.hist, k.Lag), k.Window))
	}
	if n < 2 {
		return
	}
	for i, nm := range k.ObsNm {
		variance := k.Family == "Moment2" || k.Family == "EWMMoment" && strings.HasPrefix(k.Name, "EWMMoment2") ||
			(k.Family == "Core") && nm == "Sum(2)" || k.Family == "JointCore" && (nm == "Sum[2 0]" || nm == "Sum[0 2]")
		std := k.Family == "Std" || k.Family == "EWMStd"
		if !variance && !std || got[i].Err {
			continue
		}
		c.R.Evals++
		if math.IsNaN(got[i].V) || got[i].V < 0 {
			c.Violate(k.Name+"/sign", fmt.Sprintf("%s.%s = %s with %d values in the window", k.Name, nm, fmtObs(got[i]), n), traceStr(r.steps))
		}
	}
}

// soundAll: every word of length n over alpha, reference and sign checked after each step.
func soundAll(c *rt.C, k *Kind, alpha []Step, n int, after []Step) {
	cnt := 0
	words(len(alpha), n, func(w []int) bool {
		if cnt&63 == 0 && c.Expired() {
			c.Cap(fmt.Sprintf("%d histories done", cnt))
			return false
		}
		cnt++
		r := newRun(c, k)
		c.Label(func() string { return k.Name + ": " + shortTrace(r.steps) })
		for _, x := range w {
			r.Do(alpha[x])
			got := r.Check()
			sound(c, k, r, got)
			c.R.States++
		}
		for _, s := range after {
			r.Do(s)
			got := r.Check()
			sound(c, k, r, got)
			c.R.States++
		}
		c.R.Traces++
		if cnt == 1 {
			c.Outcome(obsKey(r.Look()))
		}
		return true
	})
	c.Sample(fmt.Sprintf("%s: %d histories of %d steps over %v then %v", k.Name, cnt, n, alpha, after))
	if int64(n+len(after)) > c.R.MaxDepth {
		c.R.MaxDepth = int64(n + len(after))
	}
}

func affine(vals []float64, a, b float64) []float64 {
	r := make([]float64, len(vals))
	for i, v := range vals {
		r[i] = v*a + b
	}
	return r
}

// soundLong: patterned streams, shifted and scaled, with constant stretches.
func soundLong(c *rt.C, k *Kind, a, b float64, n int) {
	for _, p := range patterns() {
		r := newRun(c, k)
		c.Label(func() string { return fmt.Sprintf("%s: %s*%g+%g step %d", k.Name, p.name, a, b, len(r.steps)) })
		stretch := k.Window + k.Lag + 3
		if k.Window == 0 {
			stretch = 12
		}
		for i := 0; i < n; i++ {
			x := make([]float64, k.Arity)
			for j := range x {
				q := i*(j+1) + 5*j
				if (i/stretch)%3 == 2 {
					q = (i / stretch) * stretch // constant stretch
				}
				x[j] = math.Mod(p.f(q), 97)*a + b*float64(1+j)
			}
			r.Do(Step{X: x})
			got := r.Look()
			sound(c, k, r, got)
			if i%5 == 0 || i%stretch < 2 {
				r.against(got, k.Ref(r.hist))
			}
			c.R.States++
			if c.Expired() {
				c.Cap("time")
				return
			}
			if len(r.steps) > 2000 {
				r.steps = append([]Step{}, r.steps[len(r.steps)-1000:]...)
			}
		}
		c.Outcome(obsKey(r.Look()))
		c.R.Traces++
	}
	if int64(n) > c.R.MaxDepth {
		c.R.MaxDepth = int64(n)
	}
}

// shiftScale: metamorphic rule on the implementation itself. With data whose
// differences are exactly representable, shifting must not change central
// statistics beyond the error model, and scaling by a power of two is exact.
func p22() *rt.Check {
	return &rt.Check{Property: "P22",
		Rule: "every history up to the depth over values shifted by a large constant or scaled, followed by a constant stretch longer than the window; and long patterned streams with constant stretches: each result compared with the two-pass reference within an error bound proportional to (precision x magnitude x spread) - far below what cancellation in a naive formula loses -, standard deviations never NaN or negative, variances never negative",
		Bounds: func(t string) string {
			return "offsets 0, 1e6, 1e8, -1e9, 1e12, scales 1e-100..1e100 (power 2), windows 0-5, all histories of 5 (thorough 7) values over 3; streams of 400 (thorough 4000) values, windows up to 50"
		},
		Assumptions: []string{"finite values without overflow; the error model is linear in the number of operations since the last clear"},
		Jobs: func(tier string) []rt.Job {
			var js []rt.Job
			th := tier == "thorough"
			type tf struct{ a, b float64 }
			tfs := []tf{{1, 0}, {0.1, 0}, {1, 1e6}, {1, 1e8}, {3, -1e9}, {0.1, 1e12}, {1e50, 0}, {1e-50, 0}, {1e-3, 1e5}, {0.1, 0.7}}
			for _, w := range []int{0, 1, 2, 3, 4, 5} {
				for _, f := range tfs {
					f := f
					ks := []*Kind{kMean(w), kMomentK(2, w), kMomentK(3, w), kMomentK(4, w), kStd(w), kSkew(w), kKurt(w), kCore([]int{2, 3, 4}, w, 0), kCov(w), kCorr(w), kJCore([][]int{{2, 2}}, 0, w, 0), kJCore([][]int{{1, 1}, {2, 0}, {0, 2}}, 0, w, 0)}
					for _, k := range ks {
						k := k
						if math.Abs(math.Log10(f.a)) > 20 && (strings.Contains(k.Name, "4") || k.Family == "Kurtosis" || k.Family == "JointCore") {
							continue // overflow
						}
						n := pick(tier, 5, 7)
						if k.Arity == 2 {
							n = pick(tier, 4, 6)
						}
						al := allSteps(k, affine([]float64{0, 1, -3}, f.a, f.b))
						if k.Arity == 1 && n < 7 {
							al = vsteps(1, affine([]float64{0, 1, -3, 0.3}, f.a, f.b)...)
						}
						var after []Step
						for i := 0; i < w+3; i++ {
							after = append(after, al[1])
						}
						js = append(js, rt.Job{Name: fmt.Sprintf("%s/x*%g+%g/all", k.Name, f.a, f.b), Run: func(c *rt.C) { soundAll(c, k, al, n, after) }})
					}
				}
			}
			for _, d := range []float64{0.5, 0.3, 0.01, 0.999} {
				for _, f := range tfs {
					f := f
					for _, k := range []*Kind{kEWMA(d), kEWMMoment(2, d), kEWMMoment(3, d), kEWMStd(d), kEWMCov(d), kEWMCorr(d), kCore([]int{2, 4}, 0, d), kJCore([][]int{{2, 2}}, 0, 0, d)} {
						k := k
						if math.Abs(math.Log10(f.a)) > 20 && (k.Family == "Core" || k.Family == "JointCore") {
							continue
						}
						al := allSteps(k, affine([]float64{0, 1, -3}, f.a, f.b))
						js = append(js, rt.Job{Name: fmt.Sprintf("%s/x*%g+%g/all", k.Name, f.a, f.b), Run: func(c *rt.C) { soundAll(c, k, al, pick(tier, 5, 7), []Step{al[1], al[1], al[1], al[1]}) }})
					}
				}
			}
			for _, lw := range [][2]int{{0, 2}, {1, 3}, {2, 0}} {
				for _, f := range tfs {
					f := f
					for _, cr := range []bool{false, true} {
						k := kAuto(cr, lw[0], lw[1], false)
						al := vsteps(1, affine([]float64{0, 1, -3}, f.a, f.b)...)
						js = append(js, rt.Job{Name: fmt.Sprintf("%s/x*%g+%g/all", k.Name, f.a, f.b), Run: func(c *rt.C) { soundAll(c, k, al, pick(tier, 6, 8), []Step{al[1], al[1], al[1], al[1]}) }})
					}
				}
			}
			// scales at which squares are still floats but products of squares are not
			for _, f := range []tf{{1e60, 0}, {1e-60, 0}, {1e70, 1e70}, {1e-70, 0}, {1e95, 0}, {1e-95, 0}, {1e80, 0}, {1e-80, 0}, {1e120, 1e120}, {1e-120, 0}} {
				f := f
				var ks []*Kind
				size := math.Abs(math.Log10(f.a))
				for _, w := range []int{0, 3, 4, 5} {
					if size < 96 {
						ks = append(ks, kMomentK(3, w), kSkew(w), kCore([]int{2, 3}, w, 0))
					}
					if size < 71 {
						ks = append(ks, kMomentK(4, w), kKurt(w), kCore([]int{2, 4}, w, 0))
					}
				}
				for _, w := range []int{0, 1, 2, 3} {
					ks = append(ks, kMean(w), kMomentK(2, w), kStd(w), kCore([]int{2}, w, 0), kCov(w), kCorr(w), kJCore([][]int{{1, 1}, {2, 0}, {0, 2}}, 0, w, 0))
				}
				for _, d := range []float64{0.3, 0.9} {
					ks = append(ks, kEWMA(d), kEWMMoment(2, d), kEWMStd(d), kEWMCov(d), kEWMCorr(d))
				}
				for _, lw := range [][2]int{{0, 2}, {1, 3}, {2, 0}} {
					ks = append(ks, kAuto(false, lw[0], lw[1], false), kAuto(true, lw[0], lw[1], false))
				}
				for _, k := range ks {
					k := k
					al := allSteps(k, affine([]float64{0, 1, -3}, f.a, f.b))
					var after []Step
					for i := 0; i < k.Window+k.Lag+3; i++ {
						after = append(after, al[1])
					}
					js = append(js, rt.Job{Name: fmt.Sprintf("%s/x*%g+%g/all", k.Name, f.a, f.b), Run: func(c *rt.C) { soundAll(c, k, al, pick(tier, 4, 6), after) }})
				}
			}
			for _, w := range []int{0, 2, 3, 7, 20, 50} {
				for _, f := range []tf{{1, 0}, {0.1, 0}, {1, 1e8}, {0.01, -1e6}, {1e3, 1e10}} {
					f := f
					for _, k := range []*Kind{kStd(w), kMomentK(2, w), kSkew(w), kKurt(w), kCore([]int{2, 3, 4}, w, 0), kCov(w), kCorr(w), kJCore([][]int{{2, 0}, {0, 2}, {1, 1}}, 0, w, 0), kJCore([][]int{{2, 2}}, 0, w, 0)} {
						k := k
						n := pick(tier, 400, 3000)
						if k.Window == 0 {
							n = pick(tier, 200, 800)
						}
						if th && k.Family == "JointCore" {
							n = 1500
						}
						js = append(js, rt.Job{Name: fmt.Sprintf("%s/x*%g+%g/long", k.Name, f.a, f.b), Run: func(c *rt.C) { soundLong(c, k, f.a, f.b, n) }})
					}
				}
			}
			for _, d := range []float64{0.3, 0.05} {
				for _, f := range []tf{{1, 0}, {1, 1e8}, {0.01, -1e6}} {
					f := f
					for _, k := range []*Kind{kEWMStd(d), kEWMMoment(2, d), kEWMCov(d), kEWMCorr(d)} {
						k := k
						js = append(js, rt.Job{Name: fmt.Sprintf("%s/x*%g+%g/long", k.Name, f.a, f.b), Run: func(c *rt.C) { soundLong(c, k, f.a, f.b, pick(tier, 120, 500)) }})
					}
				}
			}
			return js
		}}
}

// ---- P24 --------------------------------------------------------------------

type strKind struct {
	id   string // kind and configuration
	mk   func() (any, error)
	init bool
}

// strKinds: every metric type; windows, lags, powers and decays from wide are
// not for setting up.
func strKinds(ws []int, lags []int, decays []float64, powers []int, wide bool) []strKind {
	var ks []strKind
	add := func(id string, init bool, mk func() (any, error)) { ks = append(ks, strKind{id, mk, init}) }
	for _, w := range ws {
		w := w
		if !wide || w < 1<<17 {
			add(fmt.Sprintf("Min|w=%d", w), false, func() (any, error) { return minmax.NewMin(w) })
			add(fmt.Sprintf("Max|w=%d", w), false, func() (any, error) { return minmax.NewMax(w) })
			add(fmt.Sprintf("HeapMedian|w=%d", w), false, func() (any, error) { return quantile.NewHeapMedian(w) })
			for im := 0; im < 3; im++ {
				im := im
				add(fmt.Sprintf("Median|w=%d", w), false, func() (any, error) { return quantile.NewMedian(w, quantile.ImplOption(quantile.Impl(im))) })
				add(fmt.Sprintf("IQR|w=%d", w), false, func() (any, error) { return quantile.NewIQR(w, quantile.ImplOption(quantile.Impl(im))) })
				for ip := 0; ip < 5; ip++ {
					ip := ip
					add(fmt.Sprintf("Quantile|w=%d|i=%d", w, ip), false, func() (any, error) {
						return quantile.New(w, quantile.InterpolationOption(quantile.Interpolation(ip)), quantile.ImplOption(quantile.Impl(im)))
					})
				}
			}
		}
		add(fmt.Sprintf("Mean|w=%d", w), !wide, func() (any, error) { return moment.NewMean(w), nil })
		add(fmt.Sprintf("Std|w=%d", w), !wide, func() (any, error) { return moment.NewStd(w), nil })
		add(fmt.Sprintf("Skewness|w=%d", w), !wide, func() (any, error) { return moment.NewSkewness(w), nil })
		add(fmt.Sprintf("Kurtosis|w=%d", w), !wide, func() (any, error) { return moment.NewKurtosis(w), nil })
		add(fmt.Sprintf("Cov|w=%d", w), !wide, func() (any, error) { return joint.NewCov(w), nil })
		add(fmt.Sprintf("Corr|w=%d", w), !wide, func() (any, error) { return joint.NewCorr(w), nil })
		for _, k := range powers {
			k := k
			add(fmt.Sprintf("Moment|k=%d|w=%d", k, w), !wide, func() (any, error) { return moment.New(k, w), nil })
		}
		for _, l := range lags {
			l := l
			add(fmt.Sprintf("Autocov|l=%d|w=%d", l, w), !wide, func() (any, error) { return joint.NewAutocov(l, w) })
			add(fmt.Sprintf("Autocorr|l=%d|w=%d", l, w), !wide, func() (any, error) { return joint.NewAutocorr(l, w) })
		}
	}
	for _, d := range decays {
		d := d
		add(fmt.Sprintf("EWMA|d=%v", d), !wide, func() (any, error) { return moment.NewEWMA(d), nil })
		add(fmt.Sprintf("EWMStd|d=%v", d), !wide, func() (any, error) { return moment.NewEWMStd(d), nil })
		add(fmt.Sprintf("EWMCov|d=%v", d), !wide, func() (any, error) { return joint.NewEWMCov(d), nil })
		add(fmt.Sprintf("EWMCorr|d=%v", d), !wide, func() (any, error) { return joint.NewEWMCorr(d), nil })
		for _, k := range powers {
			k := k
			add(fmt.Sprintf("EWMMoment|k=%d|d=%v", k, d), !wide, func() (any, error) { return moment.NewEWMMoment(k, d), nil })
		}
	}
	return ks
}

func pushAny(m any, i int) error {
	switch m := m.(type) {
	case stream.Metric:
		return m.Push(float64((i*i)%5) - 1)
	case stream.JointMetric:
		return m.Push(float64((i*i)%5)-1, float64(i))
	}
	return nil
}

// strangeCore gives a metric a core of another window, decay and other powers.
func strangeCore(m any, i int) {
	window := []int{5, 0, 1, 0, 2}[i%5]
	var decay *float64
	if i%5 == 3 {
		decay = stream.FloatPtr(0.7)
	}
	switch m := m.(type) {
	case moment.CoreWrapper:
		core, err := moment.NewCore(&moment.CoreConfig{Window: stream.IntPtr(window), Decay: decay, Sums: moment.SumsConfig{2: true, 3: true, 7: true}})
		must(err)
		m.SetCore(core)
	case joint.CoreWrapper:
		core, err := joint.NewCore(&joint.CoreConfig{Window: stream.IntPtr(window), Decay: decay, Vars: stream.IntPtr(2), Sums: joint.SumsConfig{{1, 1}, {2, 0}, {0, 2}, {2, 1}}})
		must(err)
		m.SetCore(core)
	}
}

func p24() *rt.Check {
	return &rt.Check{Property: "P24",
		Rule: "every metric type x configuration from the product of windows, lags, decays, powers, interpolations (and backing structures): the string form of two separately built equal metrics agrees, and of every two metrics of different kind or configuration differs (all pairs); it stays the same along every history of setup, push, query, clear and failing calls up to the depth, and can be taken before setup",
		Bounds: func(t string) string {
			return "22 windows (24 more up to 2^63-1, where none is allocated; 10 more up to 10^5 otherwise), 8 lags (14 more up to 65537), 36 decays down to neighbouring numbers, 7 powers (15 more up to 2^63-1), 5 interpolations: all pairs; all histories of <= 6 (thorough 7) operations for windows 0,1,3, including being given one of 5 other cores"
		},
		Jobs: func(tier string) []rt.Job {
			ws := []int{0, 1, 2, 3, 10, 11, 12, 21, 100, 101, 111, 127, 128, 255, 256, 257, 999, 1000, 1001, 1024, 1100, 2000}
			lags := []int{0, 1, 2, 3, 10, 11, 12, 21}
			// for the metrics that allocate nothing up front
			wide := []int{9999, 10000, 10001, 10999, 11000, 32767, 32768, 65535, 65536, 65537, 100000, 100001, 999999, 1000000, 1000001, 1 << 20, 1<<20 + 1, 1 << 31, 1<<31 + 1, 1 << 32, 1<<32 + 1, 1<<53 + 1, math.MaxInt64 - 1, math.MaxInt64}
			fine := []float64{5e-324, 1e-323, 2.2250738585072014e-308, 1e-300, 1.1e-300, 1e-20, 1e-9, 2e-9, 1.5e-9, 1e-6, 1.000001e-6, 0.0001, 0.00010001, 1. / 3, math.Nextafter(1./3, 1), 0.3333333, 0.333, 0.25, 0.25 + 1e-9, 0.25 + 1e-12, math.Nextafter(0.1, 1), math.Nextafter(0.1, 0), 0.99, 0.9999, 0.999999999999, math.Nextafter(1, 0), math.Nextafter(math.Nextafter(1, 0), 0)}
			decays := []float64{0.1, 0.3, 0.30000000000000004, 0.5, 0.05, 0.01, 1e-7, 0.999, 0.9999999}
			powers := []int{1, 2, 3, 4, 10, 11, 12}
			js := []rt.Job{{Name: "all-pairs", Run: func(c *rt.C) {
				ks := strKinds(ws, lags, decays, powers, false)
				ks = append(ks, strKinds(wide, nil, nil, []int{2, 13}, true)...)
				ks = append(ks, strKinds([]int{0, 7, 1000}, []int{100, 101, 255, 256, 257, 999, 1000, 1001, 9999, 10000, 10001, 65535, 65536, 65537}, nil, []int{20, 30, 100, 101, 110, 999, 1000, 1001, 65536, 65537, 100000, 1000000, 1000001, math.MaxInt32, math.MaxInt64}, true)...)
				ks = append(ks, strKinds(nil, nil, fine, []int{2, 5, 1000, 10000}, true)...)
				byStr := map[string]string{}
				byID := map[string]string{}
				for _, k := range ks {
					for rep := 0; rep < 2; rep++ {
						rt.Tick()
						var s string
						safely(c, k.id, "String", []string{k.id}, func() {
							m, err := k.mk()
							must(err)
							s = wStr(m)
							if k.init && rep == 1 {
								must(wInit(m))
								if t := wStr(m); t != s {
									c.Violate(k.id+"/setup", fmt.Sprintf("%s: %q before and %q after setup", k.id, s, t), nil)
								}
							}
						})
						c.R.States++
						c.R.Transitions++
						c.R.Traces++
						c.R.Evals += 2
						if o, ok := byID[k.id]; ok && o != s {
							c.Violate(k.id+"/unequal", fmt.Sprintf("two metrics %s have the string forms %q and %q", k.id, o, s), nil)
						}
						if o, ok := byStr[s]; ok && o != k.id {
							c.Violate(k.id+"/collision", fmt.Sprintf("%s and %s share the string form %q", k.id, o, s), nil)
						}
						byID[k.id], byStr[s] = s, k.id
						c.Outcome(s)
					}
				}
				// global constructors are the window-0 metrics
				for id, m := range map[string]any{"Min|w=0": minmax.NewGlobalMin(), "Max|w=0": minmax.NewGlobalMax(), "HeapMedian|w=0": quantile.NewGlobalHeapMedian(), "Mean|w=0": moment.NewGlobalMean(),
					"Std|w=0": moment.NewGlobalStd(), "Skewness|w=0": moment.NewGlobalSkewness(), "Kurtosis|w=0": moment.NewGlobalKurtosis(), "Moment|k=3|w=0": moment.NewGlobal(3), "Cov|w=0": joint.NewGlobalCov(), "Corr|w=0": joint.NewGlobalCorr()} {
					if s := wStr(m); byStr[s] != id {
						c.Violate(id+"/global", fmt.Sprintf("the global metric equal to %s has the string form %q", id, s), nil)
					}
				}
				c.Count("distinct_string_forms", int64(len(byStr)))
				c.Count("pairs_compared", int64(len(ks)*(len(ks)-1)/2))
				c.Sample(fmt.Sprintf("%d metrics, %d distinct string forms, e.g. %q", len(ks), len(byStr), byID["Autocov|l=2|w=3"]))
			}}}
			for _, k := range strKinds([]int{0, 1, 3}, []int{0, 2}, []float64{0.3}, []int{2, 3}, false) {
				k := k
				js = append(js, rt.Job{Name: "history/" + k.id, Run: func(c *rt.C) {
					for d := 1; d <= pick(tier, 6, 7); d++ {
						alone, _ := k.mk()
						nops := 5
						switch alone.(type) {
						case moment.CoreWrapper, joint.CoreWrapper:
							nops = 6
						}
						words(nops, d, func(w []int) bool {
							if c.Expired() {
								c.Cap("time")
								return false
							}
							rt.Tick()
							var tr []string
							safely(c, k.id, "a call", tr, func() {
								m, err := k.mk()
								must(err)
								s := wStr(m)
								for i, x := range w {
									c.R.Transitions++
									switch x {
									case 0:
										tr = append(tr, "Push")
										_ = pushAny(m, i)
									case 1:
										tr = append(tr, "Clear")
										wClear(m)
									case 2:
										tr = append(tr, "Value")
										if v, ok := m.(interface{ Value() (float64, error) }); ok {
											_, _ = v.Value()
										} else if q, ok := m.(*quantile.Quantile); ok {
											_, _ = q.Value(0.3)
										}
									case 3:
										tr = append(tr, "Init")
										if k.init {
											_ = wInit(m)
										}
									case 4:
										tr = append(tr, "failing call")
										if j, ok := m.(stream.JointMetric); ok {
											_ = j.Push(1, 2, 3)
										} else if q, ok := m.(*quantile.Quantile); ok {
											_, _ = q.Value(2)
										}
									case 5:
										tr = append(tr, "SetCore")
										strangeCore(m, i)
									}
									c.R.Evals++
									c.R.States++
									if t := wStr(m); t != s {
										c.Violate(k.id+"/changes", fmt.Sprintf("%s: string form changed from %q to %q", k.id, s, t), tr)
									}
								}
							})
							c.R.Traces++
							return true
						})
					}
					c.Outcome(k.id)
				}})
			}
			return js
		}}
}

// ---- P15 (one goroutine) ----------------------------------------------------

// twins makes pairs of objects that were constructed separately from the same
// caller-side data (one configuration, one option).
func twins() []struct {
	name string
	kind *Kind
	mk   func() (a, b *Obj)
} {
	type tw = struct {
		name string
		kind *Kind
		mk   func() (a, b *Obj)
	}
	var r []tw
	q := func(name string, w int, opts func() []quantile.Option) {
		k := kQuantile(w, impls()[0], iLinear, phis[:3])
		r = append(r, tw{name, k, func() (*Obj, *Obj) {
			os := opts()
			f := func() *Obj {
				q, err := quantile.New(w, os...)
				must(err)
				o := &Obj{Push: one(q.Push), Clear: q.Clear, Str: q.String, Keep: q}
				for _, p := range phis[:3] {
					p := p
					o.Obs = append(o.Obs, func() (float64, error) { return q.Value(p) })
				}
				return o
			}
			return f(), f()
		}})
	}
	for _, w := range []int{0, 2, 3} {
		w := w
		q(fmt.Sprintf("quantiles(w=%d) from one AVL option", w), w, func() []quantile.Option { return []quantile.Option{quantile.ImplOption(quantile.AVL)} })
		q(fmt.Sprintf("quantiles(w=%d) from one red-black option", w), w, func() []quantile.Option { return []quantile.Option{quantile.ImplOption(quantile.RedBlack)} })
		q(fmt.Sprintf("quantiles(w=%d) from one skip-list option", w), w, func() []quantile.Option {
			return []quantile.Option{quantile.ImplOption(quantile.SkipList, skiplist.MaxLevelOption(3), skiplist.RandOption(rand.New(rand.NewSource(5))))}
		})
		km := kCore([]int{2, 3}, w, 0)
		r = append(r, tw{fmt.Sprintf("moment cores(w=%d) from one config", w), km, func() (*Obj, *Obj) {
			cfg := &moment.CoreConfig{Window: stream.IntPtr(w), Sums: moment.SumsConfig{2: true, 3: true}}
			f := func() *Obj {
				c, err := moment.NewCore(cfg)
				must(err)
				o := &Obj{Push: one(c.Push), Clear: c.Clear, Keep: c, Str: func() string { return "" }}
				o.Obs = append(o.Obs, func() (float64, error) { return float64(c.Count()), nil }, c.Mean)
				for _, k := range []int{2, 3, 0, -1, 4, 10} {
					k := k
					o.Obs = append(o.Obs, func() (float64, error) { return c.Sum(k) })
				}
				return o
			}
			return f(), f()
		}})
		kj := kJCore([][]int{{1, 1}, {2, 0}}, 0, w, 0)
		r = append(r, tw{fmt.Sprintf("joint cores(w=%d) from one config", w), kj, func() (*Obj, *Obj) {
			cfg := &joint.CoreConfig{Window: stream.IntPtr(w), Sums: joint.SumsConfig{{1, 1}, {2, 0}}}
			f := func() *Obj {
				c, err := joint.NewCore(cfg)
				must(err)
				o, err := kj.Mk()
				must(err)
				o.Push = func(xs []float64) error { return c.Push(xs...) }
				o.Clear = c.Clear
				o.Obs[0] = func() (float64, error) { return float64(c.Count()), nil }
				o.Obs[1] = func() (float64, error) { return c.Mean(0) }
				o.Obs[2] = func() (float64, error) { return c.Mean(1) }
				o.Obs[5] = func() (float64, error) { return c.Sum(1, 1) }
				o.Obs[6] = func() (float64, error) { return c.Sum(2, 0) }
				for i := 7; i < len(o.Obs); i++ {
					o.Obs[i] = func() (float64, error) { return 0, fmt.Errorf("not asked") }
				}
				return o
			}
			return f(), f()
		}})
	}
	return r
}

// pairRun explores every interleaving of operations on two objects. late: the
// second object is constructed at its first operation.
func pairRun(c *rt.C, name string, ka, kb *Kind, mk func() (*Obj, *Obj), depth int, late bool) {
	aa := withClear(allSteps(ka, []float64{1, -3}))
	ab := withClear(allSteps(kb, []float64{2, -1}))
	n := len(aa) + len(ab)
	words(n, depth, func(w []int) bool {
		if c.Expired() {
			c.Cap("time")
			return false
		}
		ra, rb := &Run{c: c, k: ka}, &Run{c: c, k: kb}
		var tr []string
		c.Label(func() string { return name + ": " + strings.Join(tr, " ") })
		if mk != nil {
			safely(c, name, "construction", nil, func() { ra.o, rb.o = mk() })
		} else {
			ra = newRun(c, ka)
			if !late {
				rb = newRun(c, kb)
			}
		}
		for _, x := range w {
			if x < len(aa) {
				tr = append(tr, "A."+aa[x].String())
				ra.Do(aa[x])
			} else {
				if rb.o == nil {
					rb = newRun(c, kb)
				}
				tr = append(tr, "B."+ab[x-len(aa)].String())
				rb.Do(ab[x-len(aa)])
			}
		}
		if rb.o == nil {
			rb = newRun(c, kb)
		}
		for i, r := range []*Run{ra, rb} {
			got, want := r.Look(), r.k.Ref(r.hist)
			for j := range got {
				c.R.Evals++
				if ok, _ := match(got[j], want[j]); !ok {
					c.Violate(name+"/"+r.k.ObsNm[j], fmt.Sprintf("%s: %c.%s = %s, want %s", name, 'A'+i, r.k.ObsNm[j], fmtObs(got[j]), fmtExp(want[j])), tr)
				}
			}
		}
		c.R.States++
		c.R.Traces++
		return true
	})
	c.Outcome(name)
}

// ---- P15: what was constructed, merged or rejected before ----------------------

// lives are calls that involve package-level code but no object of anyone else.
func lives() []struct {
	name string
	do   func()
} {
	type life = struct {
		name string
		do   func()
	}
	var r []life
	add := func(name string, do func()) { r = append(r, life{name, do}) }
	mm := func(name string, use bool, ms ...func() moment.Metric) {
		add(name, func() {
			var cs []*moment.CoreConfig
			var os []moment.Metric
			for _, f := range ms {
				m := f()
				os = append(os, m)
				cs = append(cs, m.Config())
			}
			cfg, err := moment.MergeConfigs(cs...)
			if err != nil || !use {
				return
			}
			core, err := moment.NewCore(cfg)
			if err != nil {
				return
			}
			for _, m := range os {
				m.SetCore(core)
			}
			for _, x := range []float64{3, -4, 5} {
				_ = os[0].Push(x)
				_, _ = os[len(os)-1].Value()
			}
			os[0].Clear()
		})
	}
	skew := func() moment.Metric { return moment.NewSkewness(0) }
	kurt := func() moment.Metric { return moment.NewKurtosis(0) }
	mm("merge skewness and kurtosis", false, skew, kurt)
	mm("share a core between skewness and kurtosis", true, skew, kurt)
	mm("share a core between moments 2 to 9", true, func() moment.Metric { return moment.New(2, 0) }, func() moment.Metric { return moment.New(9, 0) }, kurt)
	mm("merge windows 2 and 3", false, func() moment.Metric { return moment.NewStd(2) }, func() moment.Metric { return moment.NewStd(3) })
	mm("merge decays 0.3 and 0.9", false, func() moment.Metric { return moment.NewEWMA(0.3) }, func() moment.Metric { return moment.NewEWMStd(0.9) })
	mm("share a decaying core", true, func() moment.Metric { return moment.NewEWMA(0.3) }, func() moment.Metric { return moment.NewEWMMoment(6, 0.3) })
	mm("use a kurtosis", true, kurt)
	add("merge configurations without sums, then with", func() {
		cfg, err := moment.MergeConfigs(&moment.CoreConfig{}, &moment.CoreConfig{Window: stream.IntPtr(3)}, &moment.CoreConfig{Sums: moment.SumsConfig{4: true}})
		if err == nil {
			_, _ = moment.NewCore(cfg)
		}
	})
	add("rejected univariate configurations", func() {
		_, _ = moment.NewCore(&moment.CoreConfig{})
		_, _ = moment.NewCore(&moment.CoreConfig{Window: stream.IntPtr(-1), Sums: moment.SumsConfig{8: true}})
		_, _ = moment.NewCore(&moment.CoreConfig{Window: stream.IntPtr(2), Decay: stream.FloatPtr(0.5)})
		_, _ = moment.NewCore(&moment.CoreConfig{Window: stream.IntPtr(2), Sums: moment.SumsConfig{-2: true, 5: true}})
		_, _ = moment.MergeConfigs()
	})
	add("high powers", func() {
		for _, k := range []int{3, 21, 30, 66} {
			m := moment.New(k, 2)
			if moment.Init(m) == nil {
				for _, x := range []float64{1, 2, 3} {
					_ = m.Push(x)
				}
			}
		}
	})
	jm := func(name string, use bool, cs ...*joint.CoreConfig) {
		add(name, func() {
			cfg, err := joint.MergeConfigs(cs...)
			if err != nil || !use {
				return
			}
			core, err := joint.NewCore(cfg)
			if err != nil {
				return
			}
			for _, x := range []float64{3, -4, 5} {
				_ = core.Push(x, 2*x+1)
			}
			core.Clear()
		})
	}
	jm("merge covariance and correlation", false, joint.NewCov(0).Config(), joint.NewCorr(0).Config())
	jm("share a core between covariance and correlation", true, joint.NewCov(2).Config(), joint.NewCorr(2).Config())
	jm("merge joint windows 2 and 3", false, joint.NewCov(2).Config(), joint.NewCorr(3).Config())
	jm("share a decaying joint core", true, joint.NewEWMCov(0.3).Config(), joint.NewEWMCorr(0.3).Config())
	jm("merge tuples", true, &joint.CoreConfig{Window: stream.IntPtr(0), Sums: joint.SumsConfig{{1, 1}, {3, 0}}}, &joint.CoreConfig{Window: stream.IntPtr(0), Sums: joint.SumsConfig{{2, 2}}})
	jm("merge joint configurations without sums", true, &joint.CoreConfig{Vars: stream.IntPtr(2)}, &joint.CoreConfig{Window: stream.IntPtr(1)})
	jm("merge tuples of different lengths", true, &joint.CoreConfig{Window: stream.IntPtr(0), Sums: joint.SumsConfig{{1, 1}}}, &joint.CoreConfig{Sums: joint.SumsConfig{{1, 1, 1}}})
	add("rejected joint configurations", func() {
		_, _ = joint.NewCore(&joint.CoreConfig{})
		_, _ = joint.NewCore(&joint.CoreConfig{Window: stream.IntPtr(-1), Sums: joint.SumsConfig{{2, 2}}})
		_, _ = joint.NewCore(&joint.CoreConfig{Window: stream.IntPtr(1), Decay: stream.FloatPtr(0.3), Sums: joint.SumsConfig{{2, 2}}})
		_, _ = joint.NewCore(&joint.CoreConfig{Window: stream.IntPtr(1), Sums: joint.SumsConfig{{2, 2}, {1, -1}}})
		_, _ = joint.MergeConfigs()
	})
	add("a joint core without sums", func() {
		c, err := joint.NewCore(&joint.CoreConfig{Window: stream.IntPtr(2), Vars: stream.IntPtr(3)})
		if err == nil {
			_ = c.Push(1, 2, 3)
			_ = c.Push(1, 2)
		}
	})
	add("quantiles with options", func() {
		for i, o := range []quantile.Option{quantile.ImplOption(quantile.SkipList, skiplist.MaxLevelOption(1), skiplist.ProbabilityOption(0.9)),
			quantile.ImplOption(quantile.RedBlack), quantile.InterpolationOption(quantile.Higher), quantile.ImplOption(quantile.SkipList, skiplist.MaxLevelOption(0)), quantile.ImplOption(quantile.Impl(9))} {
			q, err := quantile.New(i, o)
			if err == nil {
				for _, x := range []float64{3, 1, 2} {
					_ = q.Push(x)
				}
				_, _ = q.Value(0.4)
				q.Clear()
			}
		}
	})
	add("extremes and medians", func() {
		for _, k := range []*Kind{kMinMax(true, 2, false), kMinMax(false, 0, true), kHeapMedian(2, false), kHeapMedian(0, true)} {
			o, err := k.Mk()
			if err == nil {
				for _, x := range []float64{3, -1, 2} {
					_ = o.Push([]float64{x})
				}
			}
		}
	})
	add("autocovariance", func() {
		for l := 0; l < 3; l++ {
			a, err := joint.NewAutocov(l, 2)
			if err == nil && joint.Init(a) == nil {
				for _, x := range []float64{3, 1, 2, 5} {
					_ = a.Push(x)
				}
			}
		}
	})
	add("reservoirs", func() {
		r := &sample.Reservoir{Size: 2}
		for i := 0; i < 4; i++ {
			r.Push(i)
		}
	})
	return r
}

func liveJobs(tier string, probes []*Kind) []rt.Job {
	ls := lives()
	var js []rt.Job
	for i := range ls {
		i := i
		js = append(js, rt.Job{Name: "after " + ls[i].name, Run: func(c *rt.C) {
			for d := 0; d < pick(tier, 2, 3); d++ {
				words(len(ls), d, func(w []int) bool {
					if c.Expired() {
						c.Cap("time")
						return false
					}
					tr := []string{ls[i].name}
					ls[i].do()
					for _, x := range w {
						tr = append(tr, ls[x].name)
						ls[x].do()
					}
					for _, k := range probes {
						r := newRun(c, k)
						c.Label(func() string { return strings.Join(tr, "; ") + "; then a new " + k.Name })
						for n := 0; n < 3; n++ {
							got, want := r.Look(), k.Ref(r.hist)
							for j := range got {
								c.R.Evals++
								if ok, _ := match(got[j], want[j]); !ok {
									c.Violate("after/"+k.Name+"/"+k.ObsNm[j], fmt.Sprintf("a new %s after %s: %s = %s, want %s", k.Name, strings.Join(tr, "; "), k.ObsNm[j], fmtObs(got[j]), fmtExp(want[j])), append(tr, traceStr(r.steps)...))
								}
							}
							x := make([]float64, k.Arity)
							for j := range x {
								x[j] = float64(2 - 3*n + j*j)
							}
							r.Do(Step{X: x})
						}
						c.R.States++
					}
					c.R.Traces++
					return true
				})
			}
			c.Outcome(ls[i].name)
			c.Sample(fmt.Sprintf("%s, then each of %d other calls, then each of %d new objects", ls[i].name, len(ls), len(probes)))
		}})
	}
	return js
}

func p15seq() *rt.Check {
	return &rt.Check{Property: "P15",
		Rule: "one goroutine: every interleaving of operations on two separately constructed objects up to the depth, for every pair of metric kinds and configurations (the second also constructed in the middle), and for pairs built from one configuration or option list; every new object after every sequence of up to 2 (thorough 3) out of 23 merges, shared cores, rejected configurations and uses of other objects; each object compared with the reference for its own operations only. Several goroutines: see the concurrent part",
		Bounds: func(t string) string {
			return "all pairs of ~60 kinds at depth 3 (thorough 4), 20 pairs of twins and high-power cores at depth 5 (thorough 6)"
		},
		Assumptions: []string{"objects that were handed one *rand.Rand share it by the caller's choice"},
		Jobs: func(tier string) []rt.Job {
			var js []rt.Job
			im := impls()
			ks := []*Kind{kMinMax(false, 2, false), kMinMax(true, 0, true), kQuantile(2, im[1], iLinear, phis[:2]), kQuantile(0, im[3], iLinear, phis[:2]), kMedian(2, im[2]), kMedian(3, im[0]), kIQR(2, im[1]), kHeapMedian(2, false), kHeapMedian(0, true),
				kMean(2), kMean(0), kMomentK(2, 2), kMomentK(3, 1), kMomentK(7, 0), kStd(2), kStd(3), kSkew(3), kKurt(3), kCore(nil, 2, 0), kCore([]int{2, 5}, 2, 0), kCore([]int{12}, 0, 0), kCore([]int{30}, 3, 0), kCore([]int{3}, 0, 0.3),
				kEWMA(0.3), kEWMA(0.9), kEWMMoment(3, 0.5), kEWMMoment(25, 0.3), kEWMStd(0.3), kCov(2), kCov(0), kCorr(2), kCorr(3), kEWMCov(0.3), kEWMCorr(0.5), kJCore([][]int{{2, 2}}, 0, 2, 0), kJCore([][]int{{2, 1}, {1, 2}}, 0, 0, 0),
				kJCore([][]int{{1, 1, 1}}, 0, 2, 0), kJCore(nil, 3, 2, 0), kJCore([][]int{{6, 6}}, 0, 0, 0), kAuto(false, 1, 2, false), kAuto(true, 2, 2, false), kAuto(false, 0, 0, true),
				kAgg(kMinMax(false, 2, false), kMean(2)), kJAgg(kCov(2), kCorr(2))}
			for i, a := range ks {
				a := a
				i := i
				js = append(js, rt.Job{Name: "pairs with " + a.Name, Run: func(c *rt.C) {
					for j, b := range ks {
						pairRun(c, fmt.Sprintf("%s with %s", a.Name, b.Name), a, b, nil, pick(tier, 3, 4), j < i)
					}
					c.Sample(fmt.Sprintf("%s with each of %d kinds, every interleaving", a.Name, len(ks)))
				}})
			}
			js = append(js, liveJobs(tier, append([]*Kind{kCore(nil, 0, 0), kJCore(nil, 2, 0, 0), kJCore(nil, 2, 0, 0.3), kCore([]int{1}, 3, 0), kJCore([][]int{{0, 1}}, 0, 2, 0)}, ks...))...)
			hi := []*Kind{kCore([]int{30}, 2, 0), kCore([]int{21}, 0, 0), kCore([]int{2}, 2, 0), kEWMMoment(25, 0.3), kJCore([][]int{{22, 0}}, 0, 0, 0), kMomentK(4, 2), kCov(2)}
			for _, a := range hi {
				for _, b := range hi {
					a, b := a, b
					js = append(js, rt.Job{Name: "deep " + a.Name + " / " + b.Name, Run: func(c *rt.C) {
						pairRun(c, a.Name+" with "+b.Name, a, b, nil, pick(tier, 5, 6), true)
					}})
				}
			}
			for _, t := range twins() {
				t := t
				js = append(js, rt.Job{Name: "twins " + t.name, Run: func(c *rt.C) {
					k := *t.kind
					if strings.HasPrefix(t.name, "moment cores") {
						k2 := kCore([]int{2, 3}, t.kind.Window, 0)
						k = *k2
					}
					if strings.HasPrefix(t.name, "joint cores") {
						ref := k.Ref
						k.Ref = func(h [][]float64) []Exp {
							e := ref(h)
							for i := range e {
								if i > 2 && i < 5 || i > 6 {
									e[i] = skip()
								}
							}
							return e
						}
					}
					pairRun(c, t.name, &k, &k, t.mk, pick(tier, 5, 6), false)
				}})
			}
			return js
		}}
}
