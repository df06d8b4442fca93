//go:build go1.22

package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/alexander-yu/stream"
	"github.com/alexander-yu/stream/aggregate"
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/quantile/ost/avl"
	"github.com/alexander-yu/stream/quantile/ost/rb"
	"github.com/alexander-yu/stream/quantile/skiplist"
	"github.com/alexander-yu/stream/zzverif/rt"
)

// kOst presents an order-statistic structure as a kind: pushing x >= 0 adds x,
// pushing x < 0 removes -x-1.
func kOst(name string, mk func() order.Statistic) *Kind {
	return &Kind{Name: "ost-" + name, Family: "Ost", Arity: 1, Window: 3,
		ObsNm: []string{"Size", "Select(-1)", "Select(0)", "Select(1)", "Select(2)", "Select(5)", "Rank(0)", "Rank(0.5)", "Rank(1)", "Rank(2)", "Rank(99)", "Height"},
		Mk: func() (*Obj, error) {
			s := mk()
			o := &Obj{Clear: s.Clear, Keep: s, Str: func() string { return "" }}
			o.Push = func(xs []float64) error {
				if xs[0] >= 0 {
					s.Add(xs[0])
				} else {
					s.Remove(-xs[0] - 1)
				}
				return nil
			}
			o.Obs = append(o.Obs, func() (float64, error) { return float64(s.Size()), nil })
			for _, k := range []int{-1, 0, 1, 2, 5} {
				k := k
				o.Obs = append(o.Obs, func() (float64, error) {
					n := s.Select(k)
					if isNilNode(n) {
						return 0, fmt.Errorf("nothing")
					}
					return n.Value(), nil
				})
			}
			for _, v := range []float64{0, 0.5, 1, 2, 99} {
				v := v
				o.Obs = append(o.Obs, func() (float64, error) { return float64(s.Rank(v)), nil })
			}
			o.Obs = append(o.Obs, func() (float64, error) {
				if h, ok := s.(interface{ Height() int }); ok {
					return float64(h.Height()), nil
				}
				return 0, nil
			})
			return o, nil
		}}
}

func ostAsKinds() []*Kind {
	sk := func(opts ...func() order.Option) func() order.Statistic {
		return func() order.Statistic {
			var os []order.Option
			for _, o := range opts {
				os = append(os, o())
			}
			s, err := skiplist.New(os...)
			must(err)
			return s
		}
	}
	rl := func(ls ...int) func() order.Option {
		return func() order.Option { return skiplist.RandOption(randLevels(ls...)) }
	}
	ml := func(n int) func() order.Option { return func() order.Option { return skiplist.MaxLevelOption(n) } }
	pr := func(p float64) func() order.Option {
		return func() order.Option { return skiplist.ProbabilityOption(p) }
	}
	return []*Kind{
		kOst("avl", func() order.Statistic { return &avl.Tree{} }),
		kOst("rb", func() order.Statistic { return &rb.Tree{} }),
		kOst("skip-default", sk(func() order.Option { return skiplist.RandOption(rand.New(rand.NewSource(7))) })),
		kOst("skip-212", sk(rl(2, 1, 2))),
		kOst("skip-13212", sk(rl(1, 3, 2, 1, 2))),
		kOst("skip-max1", sk(ml(1), rl(2, 1))),
		kOst("skip-max2", sk(ml(2), rl(2, 1, 2, 2))),
		kOst("skip-max3-p", sk(ml(3), pr(0.75), func() order.Option { return skiplist.RandOption(randFor(0.1, 0.9, 0.5, 0.7)) })),
	}
}

// unsafeCores drive the cores through the explicit-lock API.
func unsafeCores(w int) []*Kind {
	m := kCore([]int{2, 3}, w, 0)
	j := kJCore([][]int{{2, 1}, {1, 2}}, 0, w, 0)
	wrapk := func(k *Kind, f func(o *Obj)) *Kind {
		k2 := *k
		k2.Name += "/unsafe"
		k2.Mk = func() (*Obj, error) {
			o, err := k.Mk()
			if err == nil {
				f(o)
			}
			return o, err
		}
		return &k2
	}
	return []*Kind{
		wrapk(m, func(o *Obj) {
			c := o.Keep.(*moment.Core)
			o.Push = func(xs []float64) error { c.Lock(); defer c.Unlock(); return c.UnsafePush(xs[0]) }
			o.Clear = func() { c.Lock(); defer c.Unlock(); c.UnsafeClear() }
			for i, k := range []int{-100, 0, 2, 3} {
				k := k
				if i == 0 {
					o.Obs[0] = func() (float64, error) { c.RLock(); defer c.RUnlock(); return float64(c.UnsafeCount()), nil }
				} else if i == 1 {
					o.Obs[1] = func() (float64, error) { c.RLock(); defer c.RUnlock(); return c.UnsafeMean() }
				} else {
					o.Obs[i] = func() (float64, error) { c.RLock(); defer c.RUnlock(); return c.UnsafeSum(k) }
				}
			}
		}),
		wrapk(j, func(o *Obj) {
			c := o.Keep.(*joint.Core)
			o.Push = func(xs []float64) error { c.Lock(); defer c.Unlock(); return c.UnsafePush(xs...) }
			o.Clear = func() { c.Lock(); defer c.Unlock(); c.UnsafeClear() }
			o.Obs[0] = func() (float64, error) { c.RLock(); defer c.RUnlock(); return float64(c.UnsafeCount()), nil }
			o.Obs[1] = func() (float64, error) { c.RLock(); defer c.RUnlock(); return c.UnsafeMean(0) }
		}),
	}
}

// ---- P12 --------------------------------------------------------------------

// clearSpace enumerates prefix . Clear . continuation for every prefix of
// length <= p and every continuation of length q over alpha (clears included),
// and compares with the same continuation on a new object.
func clearSpace(c *rt.C, k *Kind, alpha []Step, p, q int) {
	n := len(alpha)
	type node struct {
		obs []Obs
		str string
	}
	fresh := map[string]node{}
	key := func(w []int) string {
		b := make([]byte, len(w))
		for i, x := range w {
			b[i] = byte(x)
		}
		return string(b)
	}
	words(n, q, func(w []int) bool {
		r := newRun(c, k)
		c.Label(func() string { return k.Name + " fresh: " + shortTrace(r.steps) })
		if _, ok := fresh[""]; !ok {
			fresh[""] = node{r.Look(), r.o.Str()}
		}
		for i := 0; i < q; i++ {
			r.Do(alpha[w[i]])
			kk := key(w[:i+1])
			if _, ok := fresh[kk]; !ok {
				fresh[kk] = node{r.Look(), r.o.Str()}
			}
		}
		return true
	})
	cnt := 0
	for pl := 0; pl <= p; pl++ {
		stopped := false
		words(n, pl, func(pw []int) bool {
			if c.Expired() {
				c.Cap(fmt.Sprintf("%d prefixes done", cnt))
				stopped = true
				return false
			}
			cnt++
			prev := make([]int, 0, q)
			words(n, q, func(w []int) bool {
				r := newRun(c, k)
				c.Label(func() string { return k.Name + ": " + shortTrace(r.steps) })
				for _, x := range pw {
					r.Do(alpha[x])
				}
				r.Do(Step{Clear: true})
				from := 0
				for from < len(prev) && prev[from] == w[from] {
					from++
				}
				cmp := func(kk string) {
					c.R.Evals++
					c.R.States++
					got := r.Look()
					if i := sameObs(got, fresh[kk].obs); i >= 0 {
						c.Violate(k.Name+"/"+k.ObsNm[i], fmt.Sprintf("after a Clear %s.%s = %s, a new object with the same continuation gives %s", k.Name, k.ObsNm[i], fmtObs(got[i]), fmtObs(fresh[kk].obs[i])), traceStr(r.steps))
					}
					if s := r.o.Str(); s != fresh[kk].str {
						c.Violate(k.Name+"/String", fmt.Sprintf("after a Clear the string form is %q, of a new object %q", s, fresh[kk].str), traceStr(r.steps))
					}
				}
				if len(prev) == 0 {
					cmp("")
				}
				for i := 0; i < q; i++ {
					r.Do(alpha[w[i]])
					if i >= from || i == q-1 {
						cmp(key(w[:i+1]))
					}
				}
				prev = append(prev[:0], w...)
				c.R.Traces++
				return true
			})
			return true
		})
		if stopped {
			return
		}
	}
	if int64(p+q+1) > c.R.MaxDepth {
		c.R.MaxDepth = int64(p + q + 1)
	}
	c.Outcome(k.Name)
	c.Sample(fmt.Sprintf("%s: %d prefixes x %d continuations around a Clear, alphabet %v", k.Name, cnt, int(math.Pow(float64(n), float64(q))), alpha))
}

// clearLong: patterned prefixes of every length up to np, Clear, patterned continuation.
func clearLong(c *rt.C, k *Kind, np, nq int, ps []pattern) {
	step := func(p pattern, i int) Step {
		x := make([]float64, k.Arity)
		for j := range x {
			x[j] = p.f(i)
			if j > 0 {
				x[j] = p.f(i*(j+1)+5*j) - float64(j)
			}
		}
		return Step{X: x}
	}
	for pi, p := range ps {
		cont := ps[(pi+1)%len(ps)]
		f := newRun(c, k)
		ref := [][]Obs{f.Look()}
		for i := 0; i < nq; i++ {
			f.Do(step(cont, i))
			ref = append(ref, f.Look())
		}
		for n := 0; n <= np; n++ {
			if c.Expired() {
				c.Cap("time")
				return
			}
			r := newRun(c, k)
			c.Label(func() string { return fmt.Sprintf("%s: %d x %s, Clear, %s", k.Name, n, p.name, cont.name) })
			for i := 0; i < n; i++ {
				r.Do(step(p, i))
			}
			r.Do(Step{Clear: true})
			for i := 0; i <= nq; i++ {
				if i > 0 {
					r.Do(step(cont, i-1))
				}
				c.R.Evals++
				c.R.States++
				got := r.Look()
				if j := sameObs(got, ref[i]); j >= 0 {
					c.Violate(k.Name+"/"+k.ObsNm[j], fmt.Sprintf("%d pushes after a Clear %s.%s = %s, on a new object %s", i, k.Name, k.ObsNm[j], fmtObs(got[j]), fmtObs(ref[i][j])), traceStr(r.steps))
				}
			}
			c.R.Traces++
		}
	}
	if int64(np+nq+1) > c.R.MaxDepth {
		c.R.MaxDepth = int64(np + nq + 1)
	}
}

// clearUnset: clearing (and otherwise using) a metric that is not set up yet is harmless.
func clearUnset(c *rt.C, w wrap, q int) {
	alpha := allSteps(w.kind, []float64{0, 1, -3})
	pre := []struct {
		name string
		f    func(m any)
	}{
		{"Clear()", func(m any) { wClear(m) }},
		{"Clear() twice", func(m any) { wClear(m); wClear(m) }},
		{"Value(), Clear()", func(m any) { _, _ = wValue(m); wClear(m) }},
		{"Push(), Clear()", func(m any) { _ = wPush(m, alpha[1].X...); wClear(m) }},
		{"Init, Clear(), Init", func(m any) { must(wInit(m)); wClear(m) }},
	}
	for _, p := range pre {
		words(len(alpha), q, func(x []int) bool {
			rt.Tick()
			tr := []string{"new, not set up", p.name, "Init"}
			var a, b any
			safely(c, w.name, "use before setup", tr, func() {
				a, b = w.mk(), w.mk()
				p.f(a)
				if err := wInit(a); err != nil {
					c.Violate(w.name+"/init", fmt.Sprintf("%s: setup after %s failed: %v", w.name, p.name, err), tr)
				}
				must(wInit(b))
				oa, ob := wrapObj(a), wrapObj(b)
				for i := -1; i < len(x); i++ {
					if i >= 0 {
						tr = append(tr, alpha[x[i]].String())
						_ = oa.Push(alpha[x[i]].X)
						_ = ob.Push(alpha[x[i]].X)
					}
					va, ea := wValue(a)
					vb, eb := wValue(b)
					c.R.Evals++
					c.R.States++
					if sameObs([]Obs{{va, ea != nil}}, []Obs{{vb, eb != nil}}) >= 0 {
						c.Violate(w.name+"/unset", fmt.Sprintf("%s.Value = %v,%v; without the calls before setup %v,%v", w.name, va, ea, vb, eb), tr)
					}
				}
			})
			c.R.Traces++
			return true
		})
	}
}

// safely turns a panic of the implementation into a violation.
func safely(c *rt.C, name, what string, tr []string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			if rt.Stopped(e) {
				panic(e)
			}
			c.Violate(name+"/panic", fmt.Sprintf("%s: %s panicked: %v", name, what, e), tr)
		}
	}()
	f()
}

func p12() *rt.Check {
	return &rt.Check{Property: "P12",
		Rule: "for every metric, core, order-statistic structure and aggregate: every prefix history up to the bound, then a Clear, then every continuation up to the bound (both over values and further clears); after every step all observations must be identical to those of a new object given the same continuation; patterned prefixes of every length up to several windows; clearing before setup",
		Bounds: func(t string) string {
			return "windows 0-4: prefixes <= 4 (thorough 6), continuations of 4-5 (thorough 6) over 2 values + clear; windows 5,16 (thorough 33): patterned prefixes of every length up to 3 windows"
		},
		Assumptions: []string{"the skip list's random choices are taken from a fixed cyclic sequence"},
		Jobs: func(tier string) []rt.Job {
			var js []rt.Job
			th := tier == "thorough"
			ks := append([]*Kind{}, ostAsKinds()...)
			for w := 0; w <= 4; w++ {
				ks = append(ks, unsafeCores(w)...)
			}
			ks = append(ks, zoo([]int{0, 1, 2, 3, 4}, th)...)
			for _, k := range uniq(ks) {
				k := k
				alpha := withClear(allSteps(k, []float64{1, -3}))
				if k.Family == "Ost" {
					alpha = withClear(vsteps(1, 0, 1, 2, -1, -2))
				}
				p, q := pick(tier, 4, 5), pick(tier, 4, 6)
				if k.Window+k.Lag >= 4 {
					p, q = pick(tier, 5, 5), pick(tier, 5, 6)
				}
				if k.Family == "Ost" {
					p, q = pick(tier, 3, 4), pick(tier, 3, 4)
				}
				if k.Family == "JointCore" && k.Arity > 2 || len(k.ObsNm) > 9 && k.Family != "Ost" || strings.HasSuffix(k.Family, "Aggregate") {
					p, q = min(p, pick(tier, 3, 4)), min(q, pick(tier, 4, 5))
				}
				js = append(js, rt.Job{Name: k.Name + "/space", Run: func(c *rt.C) { clearSpace(c, k, alpha, p, q) }})
			}
			ls := []int{5, 16}
			if th {
				ls = append(ls, 33)
			}
			for _, k := range uniq(zoo(ls, th)) {
				k := k
				js = append(js, rt.Job{Name: k.Name + "/long", Run: func(c *rt.C) {
					n := 3*(k.Window+k.Lag) + 5
					ps := patterns()
					if !th {
						ps = []pattern{ps[0], ps[10], ps[4]}
						if k.Window >= 16 && (k.Family == "JointCore" || strings.HasSuffix(k.Family, "Aggregate")) {
							ps = ps[:2]
						}
					}
					clearLong(c, k, n, k.Window+k.Lag+6, ps)
				}})
			}
			for _, w := range allWraps([]int{0, 1, 2, 3}, []float64{0.3, 0.5}) {
				w := w
				js = append(js, rt.Job{Name: w.name + "/unset", Run: func(c *rt.C) { clearUnset(c, w, pick(tier, 4, 6)) }})
			}
			return js
		}}
}

// ---- P21 --------------------------------------------------------------------

type sideOp struct {
	name string
	f    func()
}

// sideOps lists the queries and the failing calls that apply to an object.
func sideOps(k *Kind, o *Obj) []sideOp {
	var s []sideOp
	add := func(n string, f func()) { s = append(s, sideOp{n, f}) }
	for i, f := range o.Obs {
		f := f
		add(k.ObsNm[i], func() { _, _ = f() })
	}
	add("String", func() { _ = o.Str() })
	switch m := o.Keep.(type) {
	case *moment.Core:
		for _, b := range []int{0, -1, 1, 77} {
			b := b
			add(fmt.Sprintf("Sum(%d)", b), func() { _, _ = m.Sum(b) })
		}
		add("RLock/RUnlock", func() { m.RLock(); _, _ = m.UnsafeMean(); m.RUnlock() })
		add("Lock/Unlock", func() { m.Lock(); _ = m.UnsafeCount(); m.Unlock() })
	case *joint.Core:
		for _, n := range []int{0, k.Arity - 1, k.Arity + 1} {
			x := make([]float64, n)
			for i := range x {
				x[i] = 11 + float64(i)
			}
			add(fmt.Sprintf("Push of %d values", n), func() { _ = m.Push(x...) })
			add(fmt.Sprintf("UnsafePush of %d values", n), func() { m.Lock(); _ = m.UnsafePush(x...); m.Unlock() })
			t := make([]int, n)
			add(fmt.Sprintf("Sum of %d exponents", n), func() { _, _ = m.Sum(t...) })
		}
		add("Sum(9...)", func() {
			t := make([]int, k.Arity)
			for i := range t {
				t[i] = 9
			}
			_, _ = m.Sum(t...)
		})
		add("Mean(-1)", func() { _, _ = m.Mean(-1) })
		add("Mean(9)", func() { _, _ = m.Mean(9) })
		add("RLock/RUnlock", func() { m.RLock(); _, _ = m.UnsafeMean(0); m.RUnlock() })
	case *quantile.Quantile:
		for _, phi := range []float64{0, 1, -1, 2, math.NaN(), math.Inf(1)} {
			phi := phi
			add(fmt.Sprintf("Value(%g)", phi), func() { _, _ = m.Value(phi) })
		}
		add("RLock/RUnlock", func() { m.RLock(); m.RUnlock() })
	case order.Statistic:
		add("Remove(absent)", func() { m.Remove(123) })
		add("Remove(absent low)", func() { m.Remove(-7) })
		add("Remove(absent mid)", func() { m.Remove(0.5) })
		add("Select(99)", func() { m.Select(99) })
		add("Select(-3)", func() { m.Select(-3) })
		add("String", func() { _ = m.(fmt.Stringer).String() })
	case *aggregate.SimpleJointAggregateMetric:
		add("Push()", func() { _ = m.Push() })
		add("Push(1)", func() { _ = m.Push(1) })
		add("Push(1,2,3)", func() { _ = m.Push(1, 2, 3) })
	case stream.SimpleJointMetric:
		add("Push()", func() { _ = m.Push() })
		add("Push(1)", func() { _ = m.Push(1) })
		add("Push(1,2,3)", func() { _ = m.Push(1, 2, 3) })
	}
	if m, ok := o.Keep.(moment.CoreWrapper); ok {
		add("Config", func() { _ = m.Config() })
		add("IsSetCore", func() { _ = wSet(m) })
	}
	if m, ok := o.Keep.(joint.CoreWrapper); ok {
		add("Config", func() { _ = m.Config() })
		add("IsSetCore", func() { _ = wSet(m) })
	}
	return s
}

// foreignCore: pushes that fail because the metric was given a core with another
// number of variables must leave the metric (in particular a lag queue) as it was.
func foreignCore(c *rt.C, w wrap, depth int) {
	alpha := allSteps(w.kind, []float64{1, -3, 2})
	words(len(alpha), depth, func(x []int) bool {
		for pos := 0; pos <= depth; pos++ {
			for times := 1; times <= 3; times++ {
				rt.Tick()
				var tr []string
				safely(c, w.name, "a call", tr, func() {
					a, b := w.mk(), w.mk()
					ja, jb := a.(joint.CoreWrapper), b.(joint.CoreWrapper)
					good, err := joint.NewCore(ja.Config())
					must(err)
					ja.SetCore(good)
					must(joint.Init(jb))
					bad, err := joint.NewCore(&joint.CoreConfig{Window: stream.IntPtr(0), Vars: stream.IntPtr(3)})
					must(err)
					for i := 0; i <= depth; i++ {
						if i == pos {
							ja.SetCore(bad)
							for t := 0; t < times; t++ {
								err := wPush(a, alpha[t%len(alpha)].X...)
								tr = append(tr, fmt.Sprintf("push to a core of 3 variables: %v", err))
								if err == nil {
									return // not a failing call
								}
							}
							ja.SetCore(good)
						}
						if i < depth {
							must(wPush(a, alpha[x[i]].X...))
							must(wPush(b, alpha[x[i]].X...))
							tr = append(tr, alpha[x[i]].String())
						}
					}
					va, ea := wValue(a)
					vb, eb := wValue(b)
					c.R.Evals++
					c.R.States++
					c.R.Traces++
					if sameObs([]Obs{{va, ea != nil}}, []Obs{{vb, eb != nil}}) >= 0 {
						c.Violate(w.name+"/foreign", fmt.Sprintf("%s.Value = %v,%v; without the failed pushes %v,%v", w.name, va, ea, vb, eb), tr)
					}
				})
			}
		}
		return true
	})
}

// partialInert: queries of a metric whose core tracks too little (they may fail)
// change nothing, and repeat themselves.
func partialInert(c *rt.C, w wrap, p partial, depth int) {
	alpha := allSteps(w.kind, []float64{1, -3, 2})
	clr := len(alpha)
	name := w.name + " " + p.name
	words(clr+1, depth, func(x []int) bool {
		for pos := 0; pos <= depth+1; pos++ {
			rt.Tick()
			var tr []string
			safely(c, name, "a call", tr, func() {
				a, b := w.mk(), w.mk()
				ca, cb := p.set(a), p.set(b)
				ask := func() {
					var first []Obs
					for i := 0; i < 2; i++ {
						v, err := wValue(a)
						tr = append(tr, fmt.Sprintf("Value = %v, %v", v, err))
						o := []Obs{{v, err != nil}}
						if first != nil && sameObs(first, o) >= 0 {
							c.Violate(name+"/repeat", fmt.Sprintf("%s: Value gives %s and then %s", name, fmtObs(first[0]), fmtObs(o[0])), tr)
						}
						first = o
					}
				}
				for i := 0; i <= depth; i++ {
					if i == pos || pos == depth+1 {
						ask()
					}
					if i == depth {
						break
					}
					if x[i] == clr {
						wClear(a)
						wClear(b)
						tr = append(tr, "Clear")
						continue
					}
					ea, eb := wPush(a, alpha[x[i]].X...), wPush(b, alpha[x[i]].X...)
					tr = append(tr, alpha[x[i]].String())
					c.R.Evals++
					if (ea != nil) != (eb != nil) {
						c.Violate(name+"/push", fmt.Sprintf("%s: a push gives error %v after queries and %v without", name, ea, eb), tr)
					}
				}
				va, ea := wValue(a)
				vb, eb := wValue(b)
				oa, ob := append(lookCore(ca), Obs{va, ea != nil}), append(lookCore(cb), Obs{vb, eb != nil})
				c.R.Evals++
				c.R.States++
				c.R.Traces++
				c.R.Transitions += int64(depth)
				if i := sameObs(oa, ob); i >= 0 {
					c.Violate(name+"/partial", fmt.Sprintf("%s: observation %d is %s after queries and %s without", name, i, fmtObs(oa[i]), fmtObs(ob[i])), tr)
				}
			})
		}
		return !c.Expired()
	})
}

// inert compares every history with the same history into which queries and
// failing calls are inserted: all of them at every position (in both orders),
// and each single one at each single position.
func inert(c *rt.C, k *Kind, alpha []Step, depth int, singles bool) {
	cnt := 0
	for d := 0; d <= depth; d++ {
		words(len(alpha), d, func(w []int) bool {
			if cnt&63 == 0 && c.Expired() {
				c.Cap(fmt.Sprintf("%d histories done", cnt))
				return false
			}
			cnt++
			base := newRun(c, k)
			c.Label(func() string { return k.Name + ": " + shortTrace(base.steps) })
			for _, x := range w {
				base.Do(alpha[x])
			}
			want := base.Look()
			c.R.States++
			// pos == -1: at every position; op == -1: all, -2: all in reverse
			run := func(op, pos int) {
				r := newRun(c, k)
				ops := sideOps(k, r.o)
				var tr []string
				do := func(i int) {
					tr = append(tr, ops[i].name)
					safely(c, k.Name, ops[i].name, tr, ops[i].f)
				}
				at := func(p int) {
					if pos >= 0 && p != pos {
						return
					}
					switch {
					case op >= 0:
						do(op)
					case op == -1:
						for i := range ops {
							do(i)
						}
					default:
						for i := len(ops) - 1; i >= 0; i-- {
							do(i)
							do(i)
						}
					}
				}
				at(0)
				for i, x := range w {
					tr = append(tr, alpha[x].String())
					r.Do(alpha[x])
					at(i + 1)
				}
				got := r.Look()
				c.R.Evals++
				c.R.Traces++
				if i := sameObs(got, want); i >= 0 {
					c.Violate(k.Name+"/"+k.ObsNm[i], fmt.Sprintf("%s.%s = %s, but %s without the inserted queries and failing calls", k.Name, k.ObsNm[i], fmtObs(got[i]), fmtObs(want[i])), tr)
				}
			}
			run(-1, -1)
			run(-2, -1)
			if singles {
				n := len(sideOps(k, base.o))
				for op := 0; op < n; op++ {
					for pos := 0; pos <= d; pos++ {
						run(op, pos)
					}
				}
			}
			return true
		})
	}
	if int64(depth) > c.R.MaxDepth {
		c.R.MaxDepth = int64(depth)
	}
	c.Outcome(k.Name)
	c.Sample(fmt.Sprintf("%s: %d histories over %v with %d kinds of inserted calls", k.Name, cnt, alpha, len(sideOps(k, newRun(c, k).o))))
}

func p21() *rt.Check {
	return &rt.Check{Property: "P21",
		Rule: "for every metric, core, order-statistic structure and aggregate: every history up to the depth; the final observations must be identical when every query and every failing call is inserted at every position (forwards, and backwards twice), and when each single one is inserted at each single position; patterned long histories; use before setup",
		Bounds: func(t string) string {
			return "windows 0-3: all histories of <= 5 (thorough 7) over 2 values + clear; each single insertion for histories of <= 3 (thorough 5); windows 5, 16 patterned; metrics on cores that track too little: histories of 3 (thorough 4) over 3 values + clear"
		},
		Assumptions: []string{"an aggregate push in which only some members fail is not a failed call in this sense (P16 covers it)"},
		Jobs: func(tier string) []rt.Job {
			var js []rt.Job
			th := tier == "thorough"
			ks := append(ostAsKinds(), zoo([]int{0, 1, 2, 3}, th)...)
			for w := 0; w <= 3; w++ {
				ks = append(ks, unsafeCores(w)...)
			}
			for _, k := range uniq(ks) {
				k := k
				alpha := withClear(allSteps(k, []float64{1, -3}))
				d, e := pick(tier, 5, 7), pick(tier, 3, 5)
				if k.Family == "Ost" {
					alpha = withClear(vsteps(1, 0, 1, 2, -1, -2))
					d, e = pick(tier, 4, 5), pick(tier, 3, 4)
				}
				if strings.HasSuffix(k.Family, "Aggregate") {
					d, e = pick(tier, 4, 5), pick(tier, 3, 4)
				}
				js = append(js, rt.Job{Name: k.Name + "/all", Run: func(c *rt.C) { inert(c, k, alpha, d, false) }},
					rt.Job{Name: k.Name + "/single", Run: func(c *rt.C) { inert(c, k, alpha, e, true) }})
			}
			for _, k := range uniq(zoo([]int{5, 16}, th)) {
				k := k
				js = append(js, rt.Job{Name: k.Name + "/long", Run: func(c *rt.C) {
					for _, p := range []pattern{patterns()[10], patterns()[4]} {
						n := 2*(k.Window+k.Lag) + 7
						a, b := newRun(c, k), newRun(c, k)
						ops := sideOps(k, b.o)
						for i := 0; i < n; i++ {
							x := make([]float64, k.Arity)
							for j := range x {
								x[j] = p.f(i*(j+1)+5*j) - float64(j)
							}
							a.Do(Step{X: x})
							b.Do(Step{X: x})
							for j := range ops {
								safely(c, k.Name, ops[j].name, traceStr(b.steps), ops[j].f)
							}
							c.R.States++
						}
						x, y := a.Look(), b.Look()
						c.R.Evals++
						if i := sameObs(x, y); i >= 0 {
							c.Violate(k.Name+"/"+k.ObsNm[i], fmt.Sprintf("%s.%s = %s with queries and failing calls after every push, %s without", k.Name, k.ObsNm[i], fmtObs(y[i]), fmtObs(x[i])), traceStr(a.steps))
						}
						c.R.Traces += 2
					}
				}})
			}
			for _, w := range allWraps([]int{0, 1, 2}, []float64{0.3}) {
				w := w
				js = append(js, rt.Job{Name: w.name + "/unset", Run: func(c *rt.C) { clearUnset(c, w, pick(tier, 3, 5)) }})
				js = append(js, rt.Job{Name: w.name + "/partial", Run: func(c *rt.C) {
					for _, p := range partials(w) {
						partialInert(c, w, p, pick(tier, 3, 4))
					}
				}})
			}
			for _, ww := range []int{0, 2, 3} {
				for _, w := range jointWraps(ww) {
					w := w
					js = append(js, rt.Job{Name: w.name + "/foreign", Run: func(c *rt.C) { foreignCore(c, w, pick(tier, 5, 7)) }})
				}
			}
			return js
		}}
}
