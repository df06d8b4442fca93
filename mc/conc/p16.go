//go:build go1.22

package main

import (
	"fmt"
	"strings"
	"unsafe"

	"github.com/alexander-yu/stream"
	"github.com/alexander-yu/stream/aggregate"
	"github.com/alexander-yu/stream/zzverif/rt"
	"github.com/alexander-yu/stream/zzverif/vsync"
)

// stub is a metric that records what it is told; its state is deliberately
// unprotected, so that a call into it that is still running when the
// aggregate's call has returned is a data race, and every call into it is a
// scheduling point.
type stub struct {
	id                int
	failPush, failVal bool
	got               []float64
	pushes, clears    int
	values            int
	locked            *vsync.Mutex // non-nil: a well-behaved metric with its own lock
}

func (s *stub) lock() func() {
	if s.locked != nil {
		s.locked.Lock()
		return s.locked.Unlock
	}
	vsync.Point(unsafe.Pointer(s), "inside a metric")
	return func() {}
}

func (s *stub) String() string { return fmt.Sprintf("stub%d", s.id) }

func (s *stub) push(xs []float64) error {
	defer s.lock()()
	s.pushes++
	s.got = append(s.got, xs...)
	if s.failPush {
		return fmt.Errorf("push failure of <%d>", s.id)
	}
	return nil
}

func (s *stub) Value() (float64, error) {
	defer s.lock()()
	s.values++
	if s.failVal {
		return 0, fmt.Errorf("value failure of <%d>", s.id)
	}
	v := float64(s.id) * 1000
	for _, x := range s.got {
		v += x
	}
	return v, nil
}

func (s *stub) Clear() {
	defer s.lock()()
	s.clears++
	s.got = nil
}

type uStub struct{ stub }

func (s *uStub) Push(x float64) error { return s.push([]float64{x}) }

type jStub struct{ stub }

func (s *jStub) Push(xs ...float64) error { return s.push(xs) }

var _ stream.SimpleMetric = (*uStub)(nil)
var _ stream.SimpleJointMetric = (*jStub)(nil)

type stubState struct {
	stubs  []*stub
	push   func(xs []float64) error
	values func() (map[string]float64, error)
	clear  func()
	bad    string
}

func (s *stubState) say(f string, a ...any) {
	if s.bad == "" {
		s.bad = fmt.Sprintf(f, a...)
	}
}

// reports checks that an error names exactly the failing members.
func (s *stubState) reports(what string, err error, mask members) {
	for _, m := range s.stubs {
		fails := mask.has(m.id)
		in := err != nil && strings.Contains(err.Error(), fmt.Sprintf("<%d>", m.id))
		if fails && !in {
			s.say("%s: the failure of member %d of %d is not reported (error: %v)", what, m.id, len(s.stubs), err)
		}
		if !fails && in {
			s.say("%s: a failure of member %d is reported, which did not fail (error: %v)", what, m.id, err)
		}
	}
	if (err != nil) != (mask.any(len(s.stubs))) {
		s.say("%s: error %v with failing members %v", what, err, mask)
	}
}

// members is a set of members: a bit set, everybody, or just one of many.
type members struct {
	bits int
	all  bool
	one  int // index+1
}

var nobody, everybody = members{}, members{all: true}

func subset(bits int) members { return members{bits: bits} }
func only(i int) members      { return members{one: i + 1} }

func (m members) has(i int) bool {
	return m.all || m.one == i+1 || i < 62 && m.bits>>i&1 == 1
}

func (m members) any(n int) bool { return m.all && n > 0 || m.one > 0 || m.bits != 0 }

func (m members) String() string {
	switch {
	case m.all:
		return "all"
	case m.one > 0:
		return fmt.Sprintf("#%d", m.one-1)
	}
	return fmt.Sprintf("%b", m.bits)
}

// bigSizes are the larger numbers of members.
func bigSizes(tier string) []int {
	ns := []int{5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 63, 64, 65, 100}
	if tier == "thorough" {
		ns = nil
		for n := 6; n <= 70; n++ {
			ns = append(ns, n)
		}
		ns = append(ns, 100, 127, 128, 129, 150)
	}
	return ns
}

// stubSet: an aggregate of n stubs; pushMask/valMask say which members fail.
func stubSet(jnt bool, n int, pushMask, valMask members, locked bool) *scnSet {
	kind := "SimpleAggregateMetric"
	if jnt {
		kind = "SimpleJointAggregateMetric"
	}
	s := &scnSet{name: fmt.Sprintf("%s of %d metrics (failing pushes %v, failing values %v, locked %v):", kind, n, pushMask, valMask, locked)}
	s.mk = func() any {
		st := &stubState{}
		var us []stream.SimpleMetric
		var js []stream.SimpleJointMetric
		for i := 0; i < n; i++ {
			b := stub{id: i, failPush: pushMask.has(i), failVal: valMask.has(i)}
			if locked {
				b.locked = new(vsync.Mutex)
			}
			if jnt {
				m := &jStub{b}
				js = append(js, m)
				st.stubs = append(st.stubs, &m.stub)
			} else {
				m := &uStub{b}
				us = append(us, m)
				st.stubs = append(st.stubs, &m.stub)
			}
		}
		if jnt {
			a := aggregate.NewSimpleJointAggregateMetric(js...)
			st.push, st.values, st.clear = func(xs []float64) error { return a.Push(xs...) }, a.Values, a.Clear
		} else {
			a := aggregate.NewSimpleAggregateMetric(us...)
			st.push, st.values, st.clear = func(xs []float64) error { return a.Push(xs[0]) }, a.Values, a.Clear
		}
		return st
	}
	s.n = 3
	s.acts = func(t, i int) []Act {
		xs := []float64{float64(1 + 10*t + 3*i)}
		if jnt {
			xs = append(xs, xs[0]+0.25)
		}
		return []Act{
			{fmt.Sprintf("Push%v", xs), func(x any) []Obs { return errObs(x.(*stubState).push(append([]float64{}, xs...))) }},
			{"Values", func(x any) []Obs { return mapObs(x.(*stubState).values()) }},
			{"Clear", func(x any) []Obs { x.(*stubState).clear(); return nil }},
		}
	}
	s.final = []Act{s.acts(0, 0)[1]}
	return s
}

// fanOut: one caller; after every call each member's record must be complete.
func fanOut(jnt bool, n int, pushMask, valMask members, locked bool, prog []int) *Scn {
	base := stubSet(jnt, n, pushMask, valMask, locked)
	sc := &Scn{Name: base.name, Mk: base.mk, NoSeq: true}
	var p []Act
	for i, op := range prog {
		i, op := i, op
		xs := []float64{float64(3 + 5*i)}
		if jnt {
			xs = append(xs, xs[0]+0.25)
			if i == 1 {
				xs = append(xs, 99)
			}
		}
		switch op {
		case 0:
			sc.Name += fmt.Sprintf(" Push%v", xs)
			p = append(p, Act{fmt.Sprintf("Push%v", xs), func(x any) []Obs {
				st := x.(*stubState)
				var was []int
				for _, m := range st.stubs {
					was = append(was, len(m.got), m.pushes, m.clears, m.values)
				}
				err := st.push(append([]float64{}, xs...))
				st.reports(fmt.Sprintf("Push%v", xs), err, pushMask)
				for j, m := range st.stubs {
					if d := m.pushes - was[4*j+1]; d != 1 {
						st.say("Push%v reached member %d of %d %d times before it returned", xs, j, n, d)
					} else if got := m.got[was[4*j]:]; fmt.Sprint(got) != fmt.Sprint(xs) {
						st.say("Push%v delivered %v to member %d", xs, got, j)
					}
					if m.clears != was[4*j+2] {
						st.say("Push cleared member %d", j)
					}
				}
				return errObs(err)
			}})
		case 1:
			sc.Name += " Values"
			p = append(p, Act{"Values", func(x any) []Obs {
				st := x.(*stubState)
				v, err := st.values()
				st.reports("Values", err, valMask)
				if err == nil {
					if len(v) != n {
						st.say("Values returned %d entries for %d metrics: %v", len(v), n, v)
					}
					for j, m := range st.stubs {
						want := float64(j) * 1000
						for _, g := range m.got {
							want += g
						}
						if got, ok := v[m.String()]; !ok || got != want {
							st.say("Values[%s] = %v (present %v), want %v", m.String(), got, ok, want)
						}
					}
				}
				return errObs(err)
			}})
		case 2:
			sc.Name += " Clear"
			p = append(p, Act{"Clear", func(x any) []Obs {
				st := x.(*stubState)
				var was []int
				for _, m := range st.stubs {
					was = append(was, m.clears, m.pushes)
				}
				st.clear()
				for j, m := range st.stubs {
					if d := m.clears - was[2*j]; d != 1 || len(m.got) != 0 || m.pushes != was[2*j+1] {
						st.say("Clear cleared member %d of %d %d times before it returned; it holds %v", j, n, d, m.got)
					}
				}
				return nil
			}})
		}
	}
	sc.Threads = [][]Act{p}
	sc.Check = func(x any, res [][]Obs) string { return x.(*stubState).bad }
	return sc
}

func p16() *rt.Check {
	return &rt.Check{Property: "P16",
		Rule:   concRule + "; aggregates of recording stub metrics whose every entry is a scheduling point and whose state is unprotected: after each call of a single caller every member's record is checked (exactly once, right values, completed before return), the error must name exactly the failing members, values one entry per member; concurrent callers: results equal some one-at-a-time order",
		Bounds: concBounds("0-4 metrics, every subset failing on push and on value, all call sequences of length 1-2 (every internal schedule up to commutation; over 3000 of them, up to 2 preemptions), two concurrent callers with up to 2+1 calls on 1-2 metrics; 5-12, 15-17, 20, 24, 31-33, 40, 63-65 and 100 metrics with nobody, everybody or any single one failing: every schedule that departs at most once (over 16 metrics: never) from first-come and from last-come order", "call sequences up to 3, 5 metrics, three callers, up to 3 preemptions; 6-70, 100, 127-129 and 150 metrics, up to 2 departures for 8 metrics, 1 for 40"),
		Jobs: func(tier string) []rt.Job {
			var js []rt.Job
			j := judge{race: true, dead: true, bound: pick(tier, 2, 3), cap: pick(tier, 3000, 40000)}
			for _, jnt := range []bool{false, true} {
				for n := 0; n <= pick(tier, 4, 5); n++ {
					for mask := 0; mask < 1<<n; mask++ {
						jnt, n, mask := jnt, n, mask
						js = append(js, rt.Job{Name: fmt.Sprintf("fan-out joint=%v n=%d failing=%b", jnt, n, mask), Run: func(c *rt.C) {
							var scs []*Scn
							for l := 1; l <= 2; l++ {
								if n >= 4 && l == 2 {
									break
								}
								for _, pr := range progs(l, 3) {
									scs = append(scs, fanOut(jnt, n, subset(mask), nobody, false, pr), fanOut(jnt, n, nobody, subset(mask), false, pr))
									if n <= 2 {
										scs = append(scs, fanOut(jnt, n, subset(mask), subset(mask), true, pr))
									}
								}
							}
							if n <= 2 {
								for _, pr := range progs(3, 3) {
									scs = append(scs, fanOut(jnt, n, subset(mask), subset(1<<n-1-mask), false, pr))
								}
							}
							runScns(c, scs, j)
						}})
					}
				}
				for _, n := range bigSizes(tier) {
					jnt, n := jnt, n
					js = append(js, rt.Job{Name: fmt.Sprintf("large fan-out joint=%v n=%d", jnt, n), Run: func(c *rt.C) {
						jj := judge{race: true, dead: true, depart: true, bound: 1}
						if n > pick(tier, 16, 40) {
							jj.bound = 0
						} else if tier == "thorough" && n <= 8 {
							jj.bound = 2
						}
						var scs []*Scn
						masks := []members{nobody, everybody}
						for k := 0; k < n; k++ {
							masks = append(masks, only(k))
						}
						for _, m := range masks {
							scs = append(scs, fanOut(jnt, n, m, nobody, false, []int{0}), fanOut(jnt, n, nobody, m, false, []int{0, 1}))
						}
						scs = append(scs, fanOut(jnt, n, nobody, nobody, false, []int{0, 2}), fanOut(jnt, n, nobody, nobody, true, []int{0, 2, 1}))
						runScns(c, scs, jj)
					}})
				}
				for n := 0; n <= 2; n++ {
					for mask := 0; mask < 1<<n; mask++ {
						jnt, n, mask := jnt, n, mask
						js = append(js, rt.Job{Name: fmt.Sprintf("callers joint=%v n=%d failing=%b", jnt, n, mask), Run: func(c *rt.C) {
							jj := j
							jj.lin = true
							s := stubSet(jnt, n, subset(mask), nobody, false)
							s.shape(1, 1)
							s.shape(2, 1)
							s.shape(1, 1, 1)
							if tier == "thorough" {
								s.shape(2, 2)
							}
							runScns(c, s.out, jj)
						}})
					}
				}
			}
			return js
		}}
}
