//go:build go1.22

package vsync

import "unsafe"

// Chan replaces channels. Generic functions are compiled, with race
// instrumentation, where they are used; all state is therefore in channel.
type Chan[T any] struct{ c channel }

type channel struct {
	size   int
	buf    []any // a ring; no append: the runtime reports it to the race detector
	head   int
	n      int
	closed bool
	send   queue
	recv   queue
	slots  []int32 // per place in the buffer, for happens-before
	in     int
	out    int
	hb     int32 // close
}

// wait is a blocked operation, or one case of a blocked select.
type wait struct {
	sel      *sel
	index    int
	v        any
	ok       bool
	from, to int32
	next     *wait
}

type queue struct{ head, tail *wait }

type sel struct {
	fired bool
	index int
}

func (w *sel) ready(k int, t *Thread) bool { return w.fired }

type never struct{}

func (never) ready(int, *Thread) bool { return false }

func MakeChan[T any](n ...int) *Chan[T] {
	c := &Chan[T]{}
	if len(n) > 0 {
		c.c.room(n[0])
	}
	return c
}

func (c *channel) room(n int) {
	if n < 0 {
		panic("makechan: size out of range")
	}
	c.size = n
	c.slots = make([]int32, n)
	c.buf = make([]any, n)
}

// of is the channel itself; nil for a nil channel.
func of[T any](c *Chan[T]) *channel {
	if c == nil {
		return nil
	}
	return &c.c
}

// begin is the scheduling point of an operation; false: the run is being ended.
func (c *channel) begin(what string) bool {
	if s == nil {
		return true
	}
	point(alwaysReady, 0, what)
	if s.aborting {
		return false
	}
	touchObj(unsafe.Pointer(c), cExcl)
	return true
}

func (c *channel) blocked(w *sel, what string) bool {
	if s == nil {
		panic(Stuck{what})
	}
	point(w, 0, what)
	if s.aborting {
		return false
	}
	touchObj(unsafe.Pointer(c), cExcl)
	return true
}

func forever(what string) {
	if s == nil {
		panic(Stuck{what})
	}
	point(never{}, 0, what)
}

// first takes the first waiting operation.
func (q *queue) first() *wait {
	for q.head != nil {
		w := q.head
		q.head = w.next
		if q.head == nil {
			q.tail = nil
		}
		if !w.sel.fired {
			return w
		}
	}
	return nil
}

func (q *queue) waiting() bool {
	for w := q.head; w != nil; w = w.next {
		if !w.sel.fired {
			return true
		}
	}
	return false
}

// meet makes the running thread and the blocked one synchronise.
func (w *wait) meet() {
	w.sel.fired, w.sel.index = true, w.index
	raceAcquire(unsafe.Pointer(&w.from))
	raceReleaseMerge(unsafe.Pointer(&w.to))
}

func (w *wait) resumed() { raceAcquire(unsafe.Pointer(&w.to)) }

func (q *queue) add(w *wait) {
	raceReleaseMerge(unsafe.Pointer(&w.from))
	if q.tail == nil {
		q.head = w
	} else {
		q.tail.next = w
	}
	q.tail = w
}

func (c *channel) enter(v any) {
	c.slot(&c.in)
	c.buf[(c.head+c.n)%c.size] = v
	c.n++
}

func (c *channel) leave() any {
	c.slot(&c.out)
	v := c.buf[c.head]
	c.buf[c.head] = nil
	c.head = (c.head + 1) % c.size
	c.n--
	return v
}

func (c *channel) slot(i *int) {
	p := unsafe.Pointer(&c.slots[*i])
	raceAcquire(p)
	raceRelease(p)
	*i = (*i + 1) % c.size
}

func (c *channel) canSend() bool {
	return c.closed || c.n < c.size || c.recv.waiting()
}

func (c *channel) trySend(v any) bool {
	if c.closed {
		panic("send on closed channel")
	}
	if w := c.recv.first(); w != nil {
		w.v, w.ok = v, true
		w.meet()
		return true
	}
	if c.n < c.size {
		c.enter(v)
		return true
	}
	return false
}

func (c *channel) canRecv() bool {
	return c.closed || c.n > 0 || c.send.waiting()
}

func (c *channel) tryRecv() (v any, ok, done bool) {
	if c.n > 0 {
		v = c.leave()
		if w := c.send.first(); w != nil {
			w.ok = true
			w.meet()
			c.enter(w.v)
		}
		return v, true, true
	}
	if w := c.send.first(); w != nil {
		w.ok = true
		w.meet()
		return w.v, true, true
	}
	if c.closed {
		raceAcquire(unsafe.Pointer(&c.hb))
		return v, false, true
	}
	return v, false, false
}

// Send is the send statement: Send(c)(v).
func Send[T any](c *Chan[T]) func(v T) {
	return func(v T) { of(c).put(v) }
}

func (c *channel) put(v any) {
	if c == nil {
		forever("send on a nil channel")
		return
	}
	if !c.begin("send") || c.trySend(v) {
		return
	}
	w := &wait{sel: &sel{}, v: v}
	c.send.add(w)
	if !c.blocked(w.sel, "send") {
		return
	}
	w.resumed()
	if !w.ok {
		panic("send on closed channel")
	}
}

// Recv is the receive operation.
func Recv[T any](c *Chan[T]) T {
	v, _ := Recv2(c)
	return v
}

func Recv2[T any](c *Chan[T]) (T, bool) {
	x, ok := of(c).get()
	v, _ := x.(T)
	return v, ok
}

func (c *channel) get() (v any, ok bool) {
	if c == nil {
		forever("receive from a nil channel")
		return
	}
	if !c.begin("receive") {
		return
	}
	if v, ok, done := c.tryRecv(); done {
		return v, ok
	}
	w := &wait{sel: &sel{}}
	c.recv.add(w)
	if !c.blocked(w.sel, "receive") {
		return
	}
	w.resumed()
	return w.v, w.ok
}

func Close[T any](c *Chan[T]) { of(c).end() }

func (c *channel) end() {
	if c == nil {
		panic("close of nil channel")
	}
	if !c.begin("close") {
		return
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	raceRelease(unsafe.Pointer(&c.hb))
	for w := c.recv.first(); w != nil; w = c.recv.first() {
		w.meet()
	}
	for w := c.send.first(); w != nil; w = c.send.first() {
		w.meet()
	}
}

func Len[T any](c *Chan[T]) int { return of(c).length() }

func (c *channel) length() int {
	if c == nil || !c.begin("len") {
		return 0
	}
	return c.n
}

func Cap[T any](c *Chan[T]) int { return of(c).capacity() }

func (c *channel) capacity() int {
	if c == nil {
		return 0
	}
	return c.size
}

// ---- select ----

// Case is one case of a select.
type Case interface{ core() *oneCase }

type oneCase struct {
	c    *channel
	w    *wait
	send bool
	v    any
	ok   bool
}

type RecvCase[T any] struct{ x oneCase }
type SendCase[T any] struct{ x oneCase }

func CaseRecv[T any](c *Chan[T]) *RecvCase[T] { return &RecvCase[T]{oneCase{c: of(c)}} }
func CaseSend[T any](c *Chan[T]) func(v T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{oneCase{c: of(c), send: true, v: v}} }
}

func (r *RecvCase[T]) core() *oneCase { return &r.x }
func (r *SendCase[T]) core() *oneCase { return &r.x }

// Got is what the case has received.
func (r *RecvCase[T]) Got() T {
	v, _ := r.x.v.(T)
	return v
}

func (r *RecvCase[T]) Got2() (T, bool) { return r.Got(), r.x.ok }

func (o *oneCase) ready() bool {
	switch {
	case o.c == nil:
		return false
	case o.send:
		return o.c.canSend()
	}
	return o.c.canRecv()
}

func (o *oneCase) do() {
	if o.send {
		o.c.trySend(o.v)
		return
	}
	o.v, o.ok, _ = o.c.tryRecv()
}

func (o *oneCase) join(w *sel, i int) {
	if o.c == nil {
		return
	}
	o.w = &wait{sel: w, index: i, v: o.v}
	if o.send {
		o.c.send.add(o.w)
	} else {
		o.c.recv.add(o.w)
	}
}

func (o *oneCase) woken() {
	o.w.resumed()
	if !o.send {
		o.v, o.ok = o.w.v, o.w.ok
	} else if !o.w.ok {
		panic("send on closed channel")
	}
}

// Select returns the number of the case that was executed, -1 for the default.
func Select(hasDefault bool, list ...Case) int {
	if s != nil {
		point(alwaysReady, 0, "select")
		if s.aborting {
			return -1
		}
	}
	cs := make([]*oneCase, len(list))
	for i, x := range list {
		cs[i] = x.core()
	}
	ok, n := make([]int, len(cs)), 0
	for i, c := range cs {
		if c.c != nil {
			touchObj(unsafe.Pointer(c.c), cExcl)
		}
		if c.ready() {
			ok[n] = i
			n++
		}
	}
	if n > 0 {
		i := ok[oneOf(n)]
		cs[i].do()
		return i
	}
	if hasDefault {
		return -1
	}
	w := &sel{}
	for i, c := range cs {
		c.join(w, i)
	}
	if s == nil {
		panic(Stuck{"select"})
	}
	point(w, 0, "select")
	if s.aborting {
		return -1
	}
	for _, c := range cs {
		if c.c != nil {
			touchObj(unsafe.Pointer(c.c), cExcl)
		}
	}
	cs[w.index].woken()
	return w.index
}

// oneOf enumerates the cases that are ready; others than the first one depart
// from the default order.
func oneOf(n int) int {
	if s == nil || !s.Depart {
		return Choose(n)
	}
	if s.pre >= s.Bound {
		n = 1
	}
	i := Choose(n)
	if i > 0 {
		s.pre++
	}
	return i
}

// Forever is the empty select.
func Forever() string {
	forever("select without cases")
	return "woken"
}
