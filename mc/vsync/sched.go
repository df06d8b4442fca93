//go:build go1.22

// Package vsync replaces package sync (and the go statement, and package
// math/rand's draws) in the instrumented copy of the code under check. Its
// operations are the only points at which a cooperative scheduler switches
// between threads; the scheduler enumerates all choices.
//
// This package is compiled without race instrumentation and without inlining,
// so that neither its state nor its hand-overs are seen by the race detector;
// the happens-before edges of the modelled primitives are announced explicitly.
package vsync

import (
	"runtime"
	"unsafe"
)

type waiter interface {
	ready(k int, t *Thread) bool
}

// Thread is one controlled goroutine.
type Thread struct {
	ID     int
	wake   chan struct{}
	obj    waiter
	k      int
	what   string
	live   bool
	boot   *Thread // who waits for this thread to reach its first point
	toMain bool    // booted by the controller
	op     *Op
	signal bool   // condition variable ticket
	key    uint64 // identity that does not depend on the schedule
	kids   uint64
	root   int32
}

// Op is the record of one call of the scenario.
type Op struct {
	Thread, Index int
	Call, Ret     int64
}

// Ev is one step of a schedule.
type Ev struct {
	T    int
	What string
}

// Sched is one exploration; Run executes one schedule of it.
type Sched struct {
	Bound    int  // preemptions allowed, <0: any number
	Depart   bool // every departure from the default order counts against the bound
	Reverse  bool // the default order prefers the youngest thread
	MaxSteps int

	// POR leaves out schedules that only reorder steps without a common
	// synchronisation object (sleep sets); NoClock: the real-time order of calls
	// does not matter. Objs are known before the run, in a fixed order.
	POR, NoClock bool
	Pruned       bool
	// Strict: objects without a fixed identity may be shared between the threads
	// of the scenario. Without it they are assumed not to be; Shared reports that
	// one was.
	Strict, Shared bool
	Objs           []unsafe.Pointer

	path, opts []int
	kind       []bool // true: a Choose decision
	keys       [][]uint64
	fps        [][]fprint
	pos        int
	pre        int

	nums     []int32
	first    []int32          // root of the first accessor
	met      int32            // objects without a fixed identity seen so far
	ids      []unsafe.Pointer // (no map: the runtime reports map accesses to the race detector)
	sleep    []asleep
	seg      []acc
	segNode  int
	segChild int

	threads  []*Thread
	cur      *Thread
	main     chan struct{}
	end      int64
	aborting bool

	Clock    int64
	Steps    int
	Deadlock bool
	Blocked  []Ev
	Overrun  bool
	Diverged bool
	Panicked any
	Stack    string
	Trace    []Ev
}

// acc is one access of a step to a synchronisation object; accesses of the same
// class other than 0 commute.
type acc struct {
	id    int32
	class int32
	root  int32 // the scenario thread the accessing thread descends from
}

const (
	cExcl = iota
	cRead
	cDone
	cCall
	cRet
)

// fprint is what a step of a thread accesses; objects numbered up to known had
// been seen before the step, those with higher numbers have no identity across
// runs.
type fprint struct {
	known int32
	set   []acc
}

type asleep struct {
	key uint64
	fp  fprint
}

const clockID = 0

func (x *Sched) access(p unsafe.Pointer, class int32) {
	if !x.POR || x.aborting {
		return
	}
	for i, q := range x.ids {
		if p == q {
			if x.nums[i] > 0 && x.first[i] != x.root() {
				x.Shared = true
			}
			x.note(acc{x.nums[i], class, x.root()})
			return
		}
	}
	x.met++
	x.ids, x.nums, x.first = append(x.ids, p), append(x.nums, x.met), append(x.first, x.root())
	x.note(acc{x.met, class, x.root()})
}

func (x *Sched) root() int32 {
	if x.cur == nil {
		return -1
	}
	return x.cur.root
}

// Register gives objects that a thread of the scenario built an identity that
// does not depend on the schedule.
func Register(group int, ps []unsafe.Pointer) {
	if s != nil && s.POR {
		s.register(group, ps)
	}
}

func (x *Sched) register(group int, ps []unsafe.Pointer) {
next:
	for i, p := range ps {
		for _, q := range x.ids {
			if p == q {
				continue next
			}
		}
		x.ids, x.nums, x.first = append(x.ids, p), append(x.nums, -int32(group*1000+i+1)), append(x.first, 0)
	}
}

func (x *Sched) note(a acc) {
	for _, b := range x.seg {
		if a == b {
			return
		}
	}
	x.seg = append(x.seg, a)
}

func touchObj(p unsafe.Pointer, class int32) {
	if s != nil {
		s.access(p, class)
	}
}

func (x *Sched) dependent(fp *fprint, seg []acc) bool {
	for _, a := range fp.set {
		for _, b := range seg {
			same := a.id == b.id
			if a.id > fp.known {
				same = b.id > fp.known
				if same && (x.Strict || a.root == b.root) {
					return true
				}
				same = false
			}
			if same && (a.class != b.class || a.class == cExcl) {
				return true
			}
		}
	}
	return false
}

// endSegment accounts for the step that just ended.
func (x *Sched) endSegment() {
	if !x.POR {
		return
	}
	if x.segNode >= 0 {
		fp := &x.fps[x.segNode][x.segChild]
	next:
		for _, a := range x.seg {
			for _, b := range fp.set {
				if a == b {
					continue next
				}
			}
			fp.set = append(fp.set, a)
		}
	}
	k := 0
	for i := range x.sleep {
		if !x.dependent(&x.sleep[i].fp, x.seg) {
			x.sleep[k] = x.sleep[i]
			k++
		}
	}
	x.sleep = x.sleep[:k]
	x.seg = x.seg[:0]
	x.segNode = -1
}

var s *Sched // active exploration, nil: calls act directly

// Active reports whether the caller runs under the scheduler.
func Active() bool { return s != nil }

type always struct{}

func (always) ready(int, *Thread) bool { return true }

var alwaysReady waiter = always{}

const maxThreads = 160

// NewSched prepares an exploration.
func NewSched(bound int) *Sched {
	return &Sched{Bound: bound, MaxSteps: 20000}
}

// Run executes one schedule of the given threads.
func (x *Sched) Run(bodies []func()) {
	x.pos, x.pre = 0, 0
	x.Pruned = false
	if x.POR {
		x.ids, x.nums, x.first, x.met = make([]unsafe.Pointer, 0, len(x.Objs)+16), make([]int32, 0, len(x.Objs)+16), make([]int32, 0, len(x.Objs)+16), 0
		x.register(1, x.Objs)
		x.sleep = make([]asleep, 0, 16)
		x.seg = make([]acc, 0, 16)
		x.segNode = -1
	}
	x.threads = make([]*Thread, 0, maxThreads)
	x.cur = nil
	x.main = make(chan struct{}, 1)
	x.aborting = false
	x.Clock, x.Steps = 0, 0
	x.Deadlock, x.Overrun, x.Diverged = false, false, false
	x.Blocked = nil
	x.Panicked, x.Stack = nil, ""
	x.Trace = make([]Ev, 0, 64)
	s = x
	for _, b := range bodies {
		t := x.newThread(nil)
		t.toMain = true
		x.start(t, b)
		x.cur = t
		x.handOver(t)
		x.await()
	}
	if n := x.pick(nil); n != nil {
		x.cur = n
		x.handOver(n)
		x.await()
	}
	// anything still alive is stuck: take it down
	x.aborting = true
	for _, t := range x.threads {
		if t.live {
			x.cur = t
			x.handOver(t)
			x.await()
		}
	}
	s = nil
	raceAcquire(unsafe.Pointer(&x.end))
}

func (x *Sched) await() {
	raceOff()
	<-x.main
	raceBack()
}

func (x *Sched) wakeMain() {
	raceOff()
	x.main <- struct{}{}
	raceBack()
}

func (x *Sched) handOver(t *Thread) {
	raceOff()
	t.wake <- struct{}{}
	raceBack()
}

func (t *Thread) sleep() {
	raceOff()
	<-t.wake
	raceBack()
}

func (x *Sched) newThread(parent *Thread) *Thread {
	if len(x.threads) >= maxThreads {
		panic("too many threads in a scenario")
	}
	t := &Thread{ID: len(x.threads), wake: make(chan struct{}, 1), live: true}
	if parent == nil {
		t.key = uint64(len(x.threads) + 1)
		t.root = int32(len(x.threads))
	} else {
		parent.kids++
		t.key = parent.key*maxThreads + parent.kids
		t.root = parent.root
	}
	x.threads = append(x.threads, t)
	return t
}

func (x *Sched) start(t *Thread, f func()) {
	go func() {
		t.sleep()
		defer x.finish(t)
		if x.aborting {
			return
		}
		defer func() {
			if e := recover(); e != nil && !x.aborting {
				raceOff()
				if x.Panicked == nil {
					x.Panicked = e
					b := make([]byte, 8192)
					x.Stack = string(b[:runtime.Stack(b, false)])
				}
				raceBack()
			}
		}()
		f()
	}()
}

func (x *Sched) finish(t *Thread) {
	raceReleaseMerge(unsafe.Pointer(&x.end))
	t.live = false
	if x.aborting || t.toMain {
		t.toMain = false
		x.wakeMain()
		return
	}
	if p := t.boot; p != nil {
		t.boot = nil
		x.cur = p
		x.handOver(p)
		return
	}
	n := x.pick(nil)
	if n == nil {
		x.wakeMain()
		return
	}
	x.cur = n
	x.handOver(n)
}

// pick decides who runs next; nil: nobody can.
func (x *Sched) pick(self *Thread) *Thread {
	x.endSegment()
	if x.Panicked != nil {
		return nil
	}
	var en [maxThreads]*Thread
	n := 0
	selfOK := false
	if self != nil && self.live && self.obj.ready(self.k, self) {
		en[0] = self
		n = 1
		selfOK = true
	}
	if !selfOK || x.Bound < 0 || x.pre < x.Bound {
		for _, t := range x.threads {
			if t != self && t.live && t.obj != nil && t.obj.ready(t.k, t) {
				en[n] = t
				n++
			}
		}
	}
	if n == 0 {
		for _, t := range x.threads {
			if t.live {
				x.Deadlock = true
				x.Blocked = append(x.Blocked, Ev{t.ID, t.what})
			}
		}
		return nil
	}
	x.Steps++
	if x.Steps > x.MaxSteps {
		x.Overrun = true
		return nil
	}
	if x.Depart {
		if x.Reverse && !selfOK {
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				en[i], en[j] = en[j], en[i]
			}
		}
		if x.pre >= x.Bound {
			n = 1
		}
		i := x.decide(n, false)
		if i > 0 {
			x.pre++
		}
		return en[i]
	}
	if x.POR {
		k := 0
	cand:
		for _, t := range en[:n] {
			for i := range x.sleep {
				if x.sleep[i].key == t.key {
					continue cand
				}
			}
			en[k] = t
			k++
		}
		if k == 0 {
			x.Pruned = true
			return nil
		}
		n = k
		at := x.pos
		fresh := at >= len(x.path)
		i := x.decide(n, false)
		if n > 1 {
			if fresh {
				x.keys[at] = make([]uint64, n)
				x.fps[at] = make([]fprint, n)
				for c, t := range en[:n] {
					x.keys[at][c] = t.key
					x.fps[at][c].known = x.met
				}
			} else if x.keys[at] == nil || x.keys[at][i] != en[i].key {
				x.Diverged = true
				return nil
			}
			for c := 0; c < i; c++ {
				x.sleep = append(x.sleep, asleep{x.keys[at][c], x.fps[at][c]})
			}
			x.segNode, x.segChild = at, i
		}
		return en[i]
	}
	i := x.decide(n, false)
	if selfOK && i > 0 {
		x.pre++
	}
	return en[i]
}

func (x *Sched) decide(n int, choice bool) int {
	if n == 1 {
		return 0
	}
	if x.pos < len(x.path) {
		if x.opts[x.pos] != n {
			x.Diverged = true
			x.opts[x.pos] = n
			if x.path[x.pos] >= n {
				x.path[x.pos] = n - 1
			}
		}
	} else {
		x.path = append(x.path, 0)
		x.opts = append(x.opts, n)
		x.kind = append(x.kind, choice)
		x.keys = append(x.keys, nil)
		x.fps = append(x.fps, nil)
	}
	i := x.path[x.pos]
	x.pos++
	return i
}

// Next moves to the next schedule; false when all were executed.
func (x *Sched) Next() bool {
	if x.pos < len(x.path) { // a shorter run than planned
		x.cut(x.pos)
	}
	for len(x.path) > 0 {
		l := len(x.path) - 1
		if x.path[l]+1 < x.opts[l] {
			x.path[l]++
			return true
		}
		x.cut(l)
	}
	return false
}

func (x *Sched) cut(l int) {
	x.path, x.opts, x.kind = x.path[:l], x.opts[:l], x.kind[:l]
	x.keys, x.fps = x.keys[:l], x.fps[:l]
}

// Decisions returns the number of decisions of the last schedule.
func (x *Sched) Decisions() int { return x.pos }

// Choices returns the numbers of outcomes of the Choose decisions of the last run.
func (x *Sched) Choices() []int {
	var r []int
	for i := 0; i < x.pos; i++ {
		if x.kind[i] {
			r = append(r, x.opts[i])
		}
	}
	return r
}

// point is a place where the scheduler may switch; it returns when the thread
// has been chosen and its operation can be executed.
func point(o waiter, k int, what string) {
	x := s
	if x.aborting {
		return
	}
	t := x.cur
	t.obj, t.k, t.what = o, k, what
	if t.toMain {
		t.toMain = false
		x.wakeMain()
		t.sleep()
	} else if p := t.boot; p != nil {
		t.boot = nil
		x.cur = p
		x.handOver(p)
		t.sleep()
	} else {
		n := x.pick(t)
		if n != t {
			if n == nil {
				x.wakeMain()
			} else {
				x.cur = n
				x.handOver(n)
			}
			t.sleep()
		}
	}
	if x.aborting {
		runtime.Goexit()
	}
	x.Trace = append(x.Trace, Ev{t.ID, what})
	touch()
}

// touch marks the call that the running thread executes as begun.
func touch() {
	x := s
	if x == nil || x.aborting || x.cur == nil {
		return
	}
	if o := x.cur.op; o != nil && o.Call == 0 {
		x.Clock++
		o.Call = x.Clock
		if x.POR && !x.NoClock {
			x.note(acc{clockID, cCall, 0})
		}
	}
}

// Point is a scheduling point before an access to p.
func Point(p unsafe.Pointer, what string) {
	if s != nil {
		point(alwaysReady, 0, what)
		s.access(p, cExcl)
	}
}

// Yield is a scheduling point without an access.
func Yield(what string) {
	if s != nil {
		point(alwaysReady, 0, what)
	}
}

// Begin and End bracket one call of a scenario.
func Begin(o *Op) {
	if s == nil || s.aborting {
		return
	}
	s.cur.op = o
}

func End(o *Op) {
	x := s
	if x == nil || x.aborting {
		return
	}
	touch()
	x.Clock++
	o.Ret = x.Clock
	if x.POR && !x.NoClock {
		x.note(acc{clockID, cRet, 0})
	}
	x.cur.op = nil
}

// Choose enumerates a nondeterministic choice.
func Choose(n int) int {
	if s == nil || s.aborting || n <= 1 {
		return 0
	}
	touch()
	return s.decide(n, true)
}

var rnds [256]uint64 // how often each thread has drawn; the last one is the setup

// ResetRand restarts the sequences of Rand64.
func ResetRand() { rnds = [256]uint64{} }

// Rand64 is the next value of the running thread's own pseudo-random sequence.
func Rand64() uint64 {
	id := Self()
	if id < 0 || id >= len(rnds)-1 {
		id = len(rnds) - 1
	}
	rnds[id]++
	z := uint64(id)*0xd1342543de82ef95 + rnds[id]*0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Self returns the number of the running thread.
func Self() int {
	if s == nil || s.cur == nil {
		return -1
	}
	return s.cur.ID
}

// Go is the go statement.
func Go(f func()) {
	x := s
	if x == nil {
		// sequential phases: run the goroutine as part of a schedule of its own
		panic("vsync: go statement outside a schedule")
	}
	if x.aborting {
		return
	}
	touch()
	p := x.cur
	t := x.newThread(p)
	t.op = p.op
	x.start(t, f)
	t.boot = p
	x.cur = t
	x.handOver(t)
	p.sleep()
	if x.aborting {
		runtime.Goexit()
	}
}

// Gosched replaces runtime.Gosched.
func Gosched() {
	if s == nil {
		runtime.Gosched()
		return
	}
	point(alwaysReady, 0, "Gosched")
}

// Solo runs f alone under the scheduler (first choice everywhere).
func Solo(f func()) *Sched {
	x := NewSched(0)
	x.Run([]func(){f})
	return x
}
