//go:build go1.22

package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/quantile/ost/avl"
	"github.com/alexander-yu/stream/quantile/ost/rb"
	"github.com/alexander-yu/stream/quantile/skiplist"
	"github.com/alexander-yu/stream/zzverif/rt"
)

// choiceSource gives the explorer control of the skip list's level choice.
type choiceSource struct{ f float64 }

func (s *choiceSource) Int63() int64 {
	return int64(s.f*(1<<10))<<53 | int64(s.f*(1<<53))
}
func (s *choiceSource) Uint64() uint64 { return uint64(s.Int63()) << 1 }
func (s *choiceSource) Seed(int64)     {}

// oop is an operation on an order-statistic structure.
type oop struct {
	kind  byte // 'A' add, 'R' remove, 'C' clear
	v     float64
	level int // skip list only
}

func (o oop) String() string {
	switch o.kind {
	case 'A':
		if o.level > 0 {
			return fmt.Sprintf("Add(%g)@level%d", o.v, o.level)
		}
		return fmt.Sprintf("Add(%g)", o.v)
	case 'R':
		return fmt.Sprintf("Remove(%g)", o.v)
	}
	return "Clear()"
}

type ostObj struct {
	s   order.Statistic
	src *choiceSource
	p   float64
}

type ostKind struct {
	name   string
	levels int // >0: skip list with this maximal level
	mk     func() *ostObj
}

func ostKinds() []ostKind {
	sk := func(maxLevel int, p float64) ostKind {
		return ostKind{name: fmt.Sprintf("skiplist(max=%d,p=%g)", maxLevel, p), levels: maxLevel, mk: func() *ostObj {
			src := &choiceSource{}
			s, err := skiplist.New(skiplist.MaxLevelOption(maxLevel), skiplist.ProbabilityOption(p), skiplist.RandOption(rand.New(src)))
			must(err)
			return &ostObj{s: s, src: src, p: p}
		}}
	}
	return []ostKind{
		{name: "avl", mk: func() *ostObj { return &ostObj{s: &avl.Tree{}} }},
		{name: "rb", mk: func() *ostObj { return &ostObj{s: &rb.Tree{}} }},
		sk(1, 0.25), sk(2, 0.25), sk(3, 0.25), sk(4, 0.5),
	}
}

func (o *ostObj) do(p oop) {
	switch p.kind {
	case 'A':
		if o.src != nil {
			// exactly level p.level: p^level <= r < p^(level-1)
			o.src.f = (math.Pow(o.p, float64(p.level)) + math.Pow(o.p, float64(p.level-1))) / 2
			if p.level == 1 {
				o.src.f = (o.p + 1) / 2
			}
		}
		o.s.Add(p.v)
	case 'R':
		o.s.Remove(p.v)
	case 'C':
		o.s.Clear()
	}
}

func msApply(ms []float64, p oop) []float64 {
	switch p.kind {
	case 'A':
		i := sort.SearchFloat64s(ms, p.v)
		r := make([]float64, 0, len(ms)+1)
		r = append(r, ms[:i]...)
		r = append(r, p.v)
		return append(r, ms[i:]...)
	case 'R':
		i := sort.SearchFloat64s(ms, p.v)
		if i < len(ms) && ms[i] == p.v {
			r := make([]float64, 0, len(ms))
			r = append(r, ms[:i]...)
			return append(r, ms[i+1:]...)
		}
		return ms
	}
	return nil
}

func isNilNode(n order.Node) bool {
	if n == nil {
		return true
	}
	v := reflect.ValueOf(n)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

// checkOst compares every observer with the sorted multiset ms.
func checkOst(c *rt.C, name string, o *ostObj, ms []float64, probes []float64, trace func() []string) {
	bad := func(what, f string, a ...any) {
		c.Violate(name+"/"+what, name+": "+fmt.Sprintf(f, a...), trace())
	}
	c.R.Evals++
	if n := o.s.Size(); n != len(ms) {
		bad("Size", "Size() = %d, want %d (contents %v)", n, len(ms), ms)
	}
	for k := range ms {
		n := o.s.Select(k)
		if isNilNode(n) {
			bad("Select", "Select(%d) found nothing, want %g (contents %v)", k, ms[k], ms)
		}
		if v := n.Value(); v != ms[k] {
			bad("Select", "Select(%d) = %g, want %g (contents %v)", k, v, ms[k], ms)
		}
	}
	for _, k := range []int{-1, -5, len(ms), len(ms) + 1, len(ms) + 64} {
		if n := o.s.Select(k); !isNilNode(n) {
			bad("Select", "Select(%d) found %g although there are %d values", k, n.Value(), len(ms))
		}
	}
	for _, v := range probes {
		if r, w := o.s.Rank(v), sort.SearchFloat64s(ms, v); r != w {
			bad("Rank", "Rank(%g) = %d, want %d (contents %v)", v, r, w, ms)
		}
	}
}

type bfsNode struct {
	parent int32
	op     int16
	depth  int16
	ms     []float64
}

// bfsOst explores every reachable state (up to maxN values, maxDepth operations)
// of an order-statistic structure. extra is called on every new state.
func bfsOst(c *rt.C, k ostKind, vals []float64, maxN, maxDepth, maxStates int, values bool, extra func(o *ostObj, ms []float64, trace func() []string)) {
	var ops []oop
	for _, v := range vals {
		if k.levels > 0 {
			for l := 1; l <= k.levels; l++ {
				ops = append(ops, oop{'A', v, l})
			}
		} else {
			ops = append(ops, oop{'A', v, 0})
		}
	}
	for _, v := range vals {
		ops = append(ops, oop{'R', v, 0})
	}
	absent := vals[len(vals)-1] + 0.25
	ops = append(ops, oop{'R', absent, 0}, oop{'C', 0, 0})
	var probes []float64
	for _, v := range vals {
		probes = append(probes, v, v-0.5, v+0.5)
	}
	probes = append(probes, -1e9, 1e9)

	states := []bfsNode{{parent: -1, op: -1}}
	seen := map[string]int32{fingerprint(k.mk().s): 0}
	path := func(i int32) []oop {
		var r []oop
		for j := i; states[j].parent >= 0; j = states[j].parent {
			r = append(r, ops[states[j].op])
		}
		for a, b := 0, len(r)-1; a < b; a, b = a+1, b-1 {
			r[a], r[b] = r[b], r[a]
		}
		return r
	}
	for i := 0; i < len(states); i++ {
		s := states[i]
		if int(s.depth) >= maxDepth {
			c.Cap(fmt.Sprintf("operation depth %d reached with %d states", maxDepth, len(states)))
			break
		}
		if i&63 == 0 && c.Expired() {
			c.Cap(fmt.Sprintf("time: %d states expanded of %d found", i, len(states)))
			break
		}
		pre := path(int32(i))
		for oi, op := range ops {
			if op.kind == 'A' && len(s.ms) >= maxN {
				continue
			}
			full := append(append([]oop{}, pre...), op)
			trace := func() []string {
				r := []string{}
				for _, p := range full {
					r = append(r, p.String())
				}
				return r
			}
			c.Label(func() string { return k.name + ": " + strings.Join(trace(), " ") })
			o := k.mk()
			var ms []float64
			alive := guardOst(c, k.name, trace, values, func() {
				for _, p := range full {
					o.do(p)
				}
				ms = msApply(s.ms, op)
				c.R.Transitions++
				if values {
					checkOst(c, k.name, o, ms, probes, trace)
				}
			})
			if !alive {
				continue
			}
			if len(states) >= maxStates {
				if !c.R.Capped {
					c.Cap(fmt.Sprintf("state cap %d reached (all transitions from found states still checked)", maxStates))
				}
				continue
			}
			fp := fingerprint(o.s)
			if _, ok := seen[fp]; !ok {
				seen[fp] = int32(len(states))
				states = append(states, bfsNode{int32(i), int16(oi), s.depth + 1, ms})
				if extra != nil {
					guardOst(c, k.name, trace, values, func() { extra(o, ms, trace) })
				}
				c.Outcome(fmt.Sprint(ms))
				if len(states) == 50 || len(states) == 2000 {
					c.Sample(strings.Join(trace(), " "))
				}
				if int64(s.depth)+1 > c.R.MaxDepth {
					c.R.MaxDepth = int64(s.depth) + 1
				}
			}
		}
		c.R.Traces++
	}
	c.R.States += int64(len(states))
}

// guardOst reports a panic as a violation, or (judge false: the property under
// check says nothing about panics) just says that the object is unusable.
func guardOst(c *rt.C, name string, trace func() []string, judge bool, f func()) (alive bool) {
	defer func() {
		if e := recover(); e != nil {
			if rt.Stopped(e) {
				panic(e)
			}
			if !judge {
				alive = false
				return
			}
			c.Violate(name+"/panic", fmt.Sprintf("%s panicked: %v", name, e), trace())
		}
	}()
	f()
	return true
}

// orders used for building and tearing down large structures
func orders(n int) map[string][]int {
	m := map[string][]int{}
	asc := make([]int, n)
	for i := range asc {
		asc[i] = i
	}
	m["asc"] = asc
	d := make([]int, n)
	for i := range d {
		d[i] = n - 1 - i
	}
	m["desc"] = d
	var z []int
	for i, j := 0, n-1; i <= j; i, j = i+1, j-1 {
		z = append(z, i)
		if i != j {
			z = append(z, j)
		}
	}
	m["outin"] = z
	io := make([]int, n)
	for i := range z {
		io[n-1-i] = z[i]
	}
	m["inout"] = io
	st := 1
	for _, p := range []int{37, 41, 43, 47} {
		if n%p != 0 {
			st = p
			break
		}
	}
	s := make([]int, n)
	for i := range s {
		s[i] = (i * st) % n
	}
	m["stride"] = s
	var br []int
	bits := 1
	for 1<<bits < n {
		bits++
	}
	for i := 0; i < 1<<bits; i++ {
		r := 0
		for b := 0; b < bits; b++ {
			if i>>b&1 == 1 {
				r |= 1 << (bits - 1 - b)
			}
		}
		if r < n {
			br = append(br, r)
		}
	}
	m["bitrev"] = br
	var eo []int
	for i := 0; i < n; i += 2 {
		eo = append(eo, i)
	}
	for i := 1; i < n; i += 2 {
		eo = append(eo, i)
	}
	m["evenodd"] = eo
	return m
}

var orderNames = []string{"asc", "desc", "outin", "inout", "stride", "bitrev", "evenodd"}

// bigOst builds a structure of n values in every order and removes them in every
// order, with `dup` copies of each value, checking along the way.
func bigOst(c *rt.C, k ostKind, n, dup int, values bool, extra func(o *ostObj, ms []float64, trace func() []string)) {
	ords := orders(n)
	for _, bn := range orderNames {
		for _, dn := range orderNames {
			if c.Expired() {
				c.Cap("time")
				return
			}
			o := k.mk()
			var ms []float64
			var done []oop
			trace := func() []string {
				r := []string{fmt.Sprintf("n=%d copies=%d build order %s, removal order %s", n, dup, bn, dn)}
				for _, p := range done {
					r = append(r, p.String())
				}
				return r
			}
			c.Label(func() string { return k.name + " " + strings.Join(trace(), " ") })
			lv := 0
			dead := false
			step := func(p oop, check bool) {
				if p.kind == 'A' && k.levels > 0 {
					// a ruler sequence of levels, shifted by the number of insertions
					lv++
					l := 1
					for x := lv; x&1 == 0 && l < k.levels; x >>= 1 {
						l++
					}
					p.level = l
				}
				done = append(done, p)
				if dead {
					return
				}
				dead = !guardOst(c, k.name, trace, values, func() {
					o.do(p)
					ms = msApply(ms, p)
					c.R.Transitions++
					if check && values {
						var probes []float64
						for i := 0; i < len(ms); i += 1 + len(ms)/16 {
							probes = append(probes, ms[i], ms[i]+0.5, ms[i]-0.5)
						}
						checkOst(c, k.name, o, ms, probes, trace)
						c.R.States++
					}
					if extra != nil {
						extra(o, ms, trace)
					}
				})
			}
			every := 1 + n*dup/24
			i := 0
			for d := 0; d < dup; d++ {
				for _, v := range ords[bn] {
					step(oop{'A', float64(v), 0}, i%every == 0)
					i++
				}
			}
			// slide: remove one, add one (shifts the contents), then tear down
			for j, v := range ords[dn] {
				if j%3 == 0 {
					step(oop{'R', float64(v), 0}, false)
					step(oop{'A', float64(v) + 0.5, 0}, i%every == 0)
					i++
				}
			}
			for d := 0; d < dup; d++ {
				for _, v := range ords[dn] {
					step(oop{'R', float64(v), 0}, i%every == 0)
					i++
				}
			}
			for len(ms) > 0 && !dead {
				step(oop{'R', ms[len(ms)/2], 0}, len(ms)%5 == 0)
			}
			step(oop{'R', 1, 0}, true)
			c.R.Traces++
			c.Outcome(bn + dn)
		}
	}
}

func p04() *rt.Check {
	return &rt.Check{Property: "P04",
		Rule: "breadth-first search of the real structures: every reachable internal state (canonical fingerprint of the whole object graph) with at most N values over a small alphabet with duplicates under Add/Remove(present and absent)/Clear, skip-list levels chosen by the explorer through the random source; in every state all k of Select, Rank of stored and in-between values, Size are compared with a sorted slice. Plus large structures in all build x removal orders.",
		Bounds: func(t string) string {
			return "up to 6-9 values from 1-9 distinct, skip lists with 1-4 levels and up to 5 values; large structures of 40-300 values, 49 order pairs, 1-4 copies; 66600 values (skip list 5000), 5 order pairs, 1-2 copies"
		},
		Jobs: func(tier string) []rt.Job {
			var js []rt.Job
			th := tier == "thorough"
			capS := pick(tier, 60000, 600000)
			for _, k := range ostKinds() {
				k := k
				type cfg struct {
					vals []float64
					n    int
				}
				var cs []cfg
				if k.levels == 0 {
					cs = []cfg{{[]float64{1}, 20}, {[]float64{1, 2}, pick(tier, 10, 12)}, {[]float64{-1, 0, 1}, pick(tier, 8, 10)}, {[]float64{1, 2, 3, 4}, pick(tier, 7, 8)},
						{[]float64{1, 2, 3, 4, 5, 6, 7, 8, 9}, pick(tier, 6, 7)}, {[]float64{math.Inf(-1), 0, math.MaxFloat64}, 6}}
				} else {
					n := []int{0, 12, 7, 6, 5}[k.levels]
					if th {
						n++
					}
					cs = []cfg{{[]float64{1}, n}, {[]float64{1, 2}, n}, {[]float64{-1, 0, 1}, n - 1}, {[]float64{1, 2, 3, 4, 5}, n - 2}}
				}
				for _, x := range cs {
					x := x
					js = append(js, rt.Job{Name: fmt.Sprintf("%s/bfs-%d-values-%d", k.name, len(x.vals), x.n), Run: func(c *rt.C) { bfsOst(c, k, x.vals, x.n, 60, capS, true, nil) }})
				}
				for _, n := range []int{5, 40, 100, pick(tier, 300, 1000)} {
					for dup := 1; dup <= 4; dup++ {
						if n == 300 && dup > 2 {
							continue
						}
						n, dup := n, dup
						js = append(js, rt.Job{Name: fmt.Sprintf("%s/big-%dx%d", k.name, n, dup), Run: func(c *rt.C) { bigOst(c, k, n, dup, true, nil) }})
					}
				}
				if k.levels == 0 || k.levels == 4 {
					n := veryN
					if k.levels > 0 {
						n = 5000 // four levels only: linear time
					}
					js = append(js, giantJobs(k, n, true, nil)...)
				}
			}
			return js
		}}
}

// ---- depth -----------------------------------------------------------------

type binNode interface {
	Left() (order.Node, error)
	Right() (order.Node, error)
	Size() int
}

func nodeDepth(n order.Node) int {
	if isNilNode(n) {
		return 0
	}
	b, ok := n.(binNode)
	if !ok {
		return 0
	}
	l, _ := b.Left()
	r, _ := b.Right()
	dl, dr := nodeDepth(l), nodeDepth(r)
	if dr > dl {
		dl = dr
	}
	return dl + 1
}

// treeDepth finds the root through Select (the node whose subtree is the whole
// tree) and walks Left/Right. Returns -1 when the root cannot be identified.
func treeDepth(o *ostObj, hint *int) int {
	n := o.s.Size()
	if n == 0 {
		return 0
	}
	try := func(k int) (int, bool) {
		if k < 0 || k >= n {
			return 0, false
		}
		x := o.s.Select(k)
		if isNilNode(x) {
			return 0, false
		}
		b, ok := x.(binNode)
		if ok && b.Size() == n {
			*hint = k
			return nodeDepth(x), true
		}
		return 0, false
	}
	if *hint >= n {
		*hint = n - 1
	}
	for d := 0; d <= n; d++ {
		if r, ok := try(*hint + d); ok {
			return r
		}
		if r, ok := try(*hint - d); ok {
			return r
		}
	}
	return -1
}

func depthCheck(c *rt.C, k ostKind, every int) func(o *ostObj, ms []float64, trace func() []string) {
	i := 0
	hint := 0
	return func(o *ostObj, ms []float64, trace func() []string) {
		i++
		if i%every != 0 {
			return
		}
		c.R.Evals++
		n := len(ms)
		d := treeDepth(o, &hint)
		if d < 0 {
			c.Count("root_not_identified", 1)
			return
		}
		bound := 2*math.Log2(float64(n)+1) + 1
		if k.name == "avl" {
			bound = 1.4405 * math.Log2(float64(n)+2)
		}
		c.ErrRatio(k.name+" depth/bound", float64(d)/bound)
		if float64(d) > bound+1e-9 {
			c.Violate(k.name+"/depth", fmt.Sprintf("%s holding %d values has %d levels, allowed %.2f", k.name, n, d, bound), trace())
		}
		if h, ok := o.s.(interface{ Height() int }); ok {
			if h.Height() != d-1 {
				c.Violate(k.name+"/height", fmt.Sprintf("%s reports height %d but its deepest value is at height %d", k.name, h.Height(), d-1), trace())
			}
		}
	}
}

// slideOst pushes a stream through a sliding window of the structure.
func slideOst(c *rt.C, k ostKind, w, n int, f func(o *ostObj, ms []float64, trace func() []string)) {
	for _, p := range patterns() {
		o := k.mk()
		var q, ms []float64
		trace := func() []string {
			return []string{fmt.Sprintf("sliding window of %d over the stream pattern %s, %d values in", w, p.name, len(q)), fmt.Sprint("last values ", q[max(0, len(q)-50):])}
		}
		c.Label(func() string { return k.name + " slide " + p.name })
		for i := 0; i < n; i++ {
			rt.Tick()
			x := p.f(i)
			if !guardOst(c, k.name, trace, false, func() {
				if len(q) >= w {
					o.do(oop{'R', q[len(q)-w], 0})
					ms = ms[:len(ms)-1]
				}
				o.do(oop{'A', x, 1})
				ms = append(ms, x) // only its length is used
				q = append(q, x)
				f(o, ms, trace)
				c.R.Transitions++
			}) {
				break
			}
		}
		c.R.Traces++
		c.Outcome(p.name)
	}
}

func p05() *rt.Check {
	return &rt.Check{Property: "P05",
		Rule: "breadth-first search of every reachable tree shape with at most N values (duplicates included) under adds and removes: the real depth (walked through Left/Right from the root) against the AVL and red-black bounds, and the AVL tree's reported height against its real one; plus all build x removal order pairs and sliding windows for large trees",
		Bounds: func(t string) string {
			return "every shape of up to 9-13 values over 1-9 distinct values; 49 build/removal order pairs x 1-3 copies for 15-1000 values; 14 stream patterns through windows of 7-500; trees of 66600 values, 5 build/removal order pairs x 1-2 copies"
		},
		Assumptions: []string{"the root is the node returned by Select whose Size is the tree's size"},
		Jobs: func(tier string) []rt.Job {
			var js []rt.Job
			for _, k := range ostKinds()[:2] {
				k := k
				type cfg struct {
					vals []float64
					n    int
				}
				cs := []cfg{{[]float64{1}, 40}, {[]float64{1, 2}, pick(tier, 12, 15)}, {[]float64{1, 2, 3}, pick(tier, 10, 11)}, {[]float64{1, 2, 3, 4}, pick(tier, 9, 10)},
					{[]float64{1, 2, 3, 4, 5, 6}, pick(tier, 8, 9)}, {[]float64{1, 2, 3, 4, 5, 6, 7, 8, 9}, pick(tier, 6, 8)}}
				for _, x := range cs {
					x := x
					js = append(js, rt.Job{Name: fmt.Sprintf("%s/bfs-%d-values-%d", k.name, len(x.vals), x.n), Run: func(c *rt.C) {
						bfsOst(c, k, x.vals, x.n, 200, pick(tier, 120000, 1000000), false, depthCheck(c, k, 1))
					}})
				}
				for n := 1; n <= 64; n++ {
					n := n
					js = append(js, rt.Job{Name: fmt.Sprintf("%s/orders-%d", k.name, n), Run: func(c *rt.C) {
						for d := 1; d <= 3; d++ {
							bigOst(c, k, n, d, false, depthCheck(c, k, 1))
						}
					}})
				}
				for _, n := range []int{100, 127, 128, 200, 255, 256, 500, pick(tier, 1000, 4000)} {
					n := n
					for d := 1; d <= 3; d++ {
						d := d
						js = append(js, rt.Job{Name: fmt.Sprintf("%s/big-%dx%d", k.name, n, d), Run: func(c *rt.C) { bigOst(c, k, n, d, false, depthCheck(c, k, 1+n*d/40)) }})
					}
				}
				for _, w := range []int{1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 64, 100, 200, 500} {
					w := w
					js = append(js, rt.Job{Name: fmt.Sprintf("%s/slide-%d", k.name, w), Run: func(c *rt.C) { slideOst(c, k, w, 6*w+300, depthCheck(c, k, 1+w/16)) }})
				}
				js = append(js, giantJobs(k, veryN, false, func(c *rt.C) func(o *ostObj, ms []float64, trace func() []string) { return depthCheck(c, k, 1) })...)
			}
			return js
		}}
}
