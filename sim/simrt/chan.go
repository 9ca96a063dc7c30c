package simrt

import (
	"unsafe"
)

// Channels of the code under test are simulated: the real channel is only the
// identity (and is looked at in case code that is not simulated uses it). The
// happens-before edges are those of the Go memory model.

type chanSt struct {
	key    unsafe.Pointer
	keep   any
	cap    int
	closed bool
	buf    []chanItem
	slots  []uint64 // race detector objects, one for each place of the buffer
	head   int
	n      int
	recvq  chanQueue
	sendq  chanQueue
	cl     uint64
	link   *chanSt
}

type chanItem struct {
	v     any
	sync  *uint64
	op    int
	local any
	from  bool // op and local are those of a task
}

// selSt is one wait: of a select statement or of a single operation.
type selSt struct {
	t      *Task
	done   bool
	idx    int
	v      any
	ok     bool
	closed bool // woken by close
	w      *chanWaiter
	slot   *uint64
}

type chanWaiter struct {
	sel  *selSt
	idx  int
	v    any
	a, b uint64
	next *chanWaiter
}

type chanQueue struct{ head, tail *chanWaiter }

func (q *chanQueue) add(w *chanWaiter) {
	if q.tail == nil {
		q.head, q.tail = w, w
	} else {
		q.tail.next = w
		q.tail = w
	}
}

func (q *chanQueue) remove(w *chanWaiter) {
	var prev *chanWaiter
	for x := q.head; x != nil; prev, x = x, x.next {
		if x != w {
			continue
		}
		if prev == nil {
			q.head = x.next
		} else {
			prev.next = x.next
		}
		if q.tail == x {
			q.tail = prev
		}
		x.next = nil
		return
	}
}

// take removes the first waiter that is still waiting.
func (q *chanQueue) take() *chanWaiter {
	for q.head != nil {
		w := q.head
		q.head = w.next
		if q.head == nil {
			q.tail = nil
		}
		w.next = nil
		if !w.sel.done && !w.sel.t.killed {
			return w
		}
	}
	return nil
}

// ---- the table of channels ----

const chanBuckets = 1 << 10

var chanTab [chanBuckets]*chanSt

func endChans() {
	for i := range chanTab {
		chanTab[i] = nil
	}
}

func chanOf(key unsafe.Pointer, c any, cap int) *chanSt {
	h := Mix2(uint64(uintptr(key)), 0xc4a) & (chanBuckets - 1)
	for s := chanTab[h]; s != nil; s = s.link {
		if s.key == key {
			return s
		}
	}
	s := &chanSt{key: key, keep: c, cap: cap, link: chanTab[h]}
	chanTab[h] = s
	return s
}

// ---- operations ----

func (c *chanSt) slot(i int) unsafe.Pointer { return unsafe.Pointer(&c.slots[i]) }

// push puts an item into the buffer; it reports false when there is no room.
func (c *chanSt) push(v any) bool {
	if w := c.recvq.take(); w != nil {
		c.give(w, v)
		return true
	}
	return c.put(v, nil)
}

func (c *chanSt) put(v any, sync *uint64) bool {
	if c.n >= c.cap {
		return false
	}
	if c.buf == nil {
		c.buf = make([]chanItem, c.cap)
		c.slots = make([]uint64, c.cap)
	}
	i := (c.head + c.n) % c.cap
	c.buf[i] = chanItem{v: v, sync: sync}
	if S != nil && !firing {
		c.buf[i].op, c.buf[i].local, c.buf[i].from = S.cur.Op, S.cur.Local, true
	}
	if sync == nil {
		RaceAcquire(c.slot(i))
		RaceReleaseX(c.slot(i))
	}
	c.n++
	return true
}

// give hands a value to a waiting receiver.
func (c *chanSt) give(w *chanWaiter, v any) {
	s := w.sel
	s.done, s.idx, s.v, s.ok, s.w = true, w.idx, v, true, w
	if c.cap == 0 {
		RaceAcquire(unsafe.Pointer(&w.b))
	}
	RaceRelease(unsafe.Pointer(&w.a))
	if S != nil && s.t.Daemon && !firing {
		s.t.Op, s.t.Local = S.cur.Op, S.cur.Local
	}
	Wake(s.t)
}

func (c *chanSt) trySend(v any) bool {
	if c.closed {
		panic("send on closed channel")
	}
	if c.push(v) {
		chanDone()
		return true
	}
	return false
}

func chanDone() {
	if S != nil {
		S.prog++
		S.Stats.ChanOps++
	}
}

func adopt(op int, local any) {
	if S != nil && S.cur.Daemon {
		S.cur.Op, S.cur.Local = op, local
	}
}

func (c *chanSt) tryRecv(poll func() (any, bool, bool)) (v any, ok, done bool) {
	if c.n > 0 {
		i := c.head
		it := c.buf[i]
		c.buf[i] = chanItem{}
		c.head = (c.head + 1) % c.cap
		c.n--
		RaceAcquire(c.slot(i))
		if it.sync != nil {
			RaceAcquire(unsafe.Pointer(it.sync))
		}
		RaceReleaseX(c.slot(i))
		if w := c.sendq.take(); w != nil {
			c.put(w.v, &w.a)
			j := (c.head + c.n - 1) % c.cap
			c.buf[j].op, c.buf[j].local, c.buf[j].from = w.sel.t.Op, w.sel.t.Local, true
			w.sel.done, w.sel.idx, w.sel.w, w.sel.slot = true, w.idx, w, &c.slots[j]
			Wake(w.sel.t)
		}
		if it.from {
			adopt(it.op, it.local)
		}
		chanDone()
		return it.v, true, true
	}
	if w := c.sendq.take(); w != nil {
		RaceAcquire(unsafe.Pointer(&w.a))
		RaceRelease(unsafe.Pointer(&w.b))
		w.sel.done, w.sel.idx, w.sel.w = true, w.idx, w
		adopt(w.sel.t.Op, w.sel.t.Local)
		Wake(w.sel.t)
		chanDone()
		return w.v, true, true
	}
	if c.closed {
		RaceAcquire(unsafe.Pointer(&c.cl))
		chanDone()
		return nil, false, true
	}
	v, ok, done = poll()
	if done {
		chanDone()
	}
	return
}

func (c *chanSt) close() {
	c.closed = true
	RaceRelease(unsafe.Pointer(&c.cl))
	for w := c.recvq.take(); w != nil; w = c.recvq.take() {
		w.sel.done, w.sel.idx, w.sel.closed, w.sel.w = true, w.idx, true, w
		Wake(w.sel.t)
	}
	for w := c.sendq.take(); w != nil; w = c.sendq.take() {
		w.sel.done, w.sel.idx, w.sel.closed, w.sel.w = true, w.idx, true, w
		Wake(w.sel.t)
	}
	chanDone()
}

// chanOp is one communication of a select statement, or a single operation.
type chanOp struct {
	c    *chanSt // nil: the nil channel
	send bool
	v    any
	poll func() (any, bool, bool)
	w    *chanWaiter
}

func (o *chanOp) try() (v any, ok, done bool) {
	if o.c == nil {
		return nil, false, false
	}
	if o.send {
		return nil, false, o.c.trySend(o.v)
	}
	return o.c.tryRecv(o.poll)
}

// communicate performs one of the operations. Without def it waits for one.
func communicate(ops []*chanOp, def bool) (idx int, v any, ok bool) {
	if tearing {
		return -1, nil, false
	}
	Y(0)
	n := len(ops)
	first := 0
	if n > 1 && S != nil {
		S.nsel = Mix2(S.nsel, 0x5e1)
		first = int(S.nsel>>8) & 0xffff % n
	}
	for i := 0; i < n; i++ {
		k := (first + i) % n
		if v, ok, done := ops[k].try(); done {
			return k, v, ok
		}
	}
	if def {
		return -1, nil, false
	}
	t := enter()
	sel := &selSt{t: t}
	recv := false
	for i, o := range ops {
		if o.c == nil {
			continue
		}
		w := &chanWaiter{sel: sel, idx: i, v: o.v}
		o.w = w
		if o.send {
			RaceRelease(unsafe.Pointer(&w.a))
			o.c.sendq.add(w)
		} else {
			recv = true
			RaceRelease(unsafe.Pointer(&w.b))
			o.c.recvq.add(w)
		}
	}
	why := "a channel"
	if n == 0 {
		why = "nothing"
	}
	for !sel.done {
		t.chanWait = recv
		block(t, why)
		t.chanWait = false
		if sel.done || tearing {
			break
		}
		for i, o := range ops { // looked at again; see repoll
			if o.c == nil || o.send {
				continue
			}
			if v, ok, done := o.poll(); done {
				sel.done, sel.idx, sel.v, sel.ok, sel.w = true, i, v, ok, nil
				chanDone()
				break
			}
		}
	}
	for i, o := range ops {
		if o.c != nil && !(sel.done && i == sel.idx && sel.w != nil) {
			if o.send {
				o.c.sendq.remove(o.w)
			} else {
				o.c.recvq.remove(o.w)
			}
		}
	}
	leaveRun(t)
	if !sel.done {
		return -1, nil, false
	}
	o := ops[sel.idx]
	if sel.w == nil {
		return sel.idx, sel.v, sel.ok
	}
	switch {
	case sel.closed:
		RaceAcquire(unsafe.Pointer(&o.c.cl))
		if o.send {
			panic("send on closed channel")
		}
	case o.send:
		RaceAcquire(unsafe.Pointer(&sel.w.b))
		if sel.slot != nil {
			RaceAcquire(unsafe.Pointer(sel.slot))
		}
	default:
		RaceAcquire(unsafe.Pointer(&sel.w.a))
	}
	return sel.idx, sel.v, sel.ok
}

// ---- what instrumented code calls ----

func sendOp[T any](c chan<- T, v T) *chanOp {
	if c == nil {
		return &chanOp{send: true}
	}
	return &chanOp{c: chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&c)), c, cap(c)), send: true, v: v}
}

func recvOp[T any](c <-chan T) *chanOp {
	if c == nil {
		return &chanOp{}
	}
	return &chanOp{c: chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&c)), c, cap(c)), poll: func() (any, bool, bool) {
		select {
		case v, ok := <-c:
			return v, ok, true
		default:
			return nil, false, false
		}
	}}
}

func NSend[T any](c chan<- T) func(T) {
	return func(v T) { communicate([]*chanOp{sendOp(c, v)}, false) }
}

func NRecv[T any](c <-chan T) T {
	v, _ := NRecv2(c)
	return v
}

func NRecv2[T any](c <-chan T) (r T, ok bool) {
	_, v, ok := communicate([]*chanOp{recvOp(c)}, false)
	if v != nil {
		r = v.(T)
	}
	return r, ok
}

func NClose[T any](c chan<- T) {
	close(c)
	closeChan(*(*unsafe.Pointer)(unsafe.Pointer(&c)), c, cap(c))
}

func closeChan(key unsafe.Pointer, c any, cap int) {
	if tearing {
		return
	}
	chanOf(key, c, cap).close()
	Y(0)
}

// ChanLen replaces len of a channel.
func ChanLen[T any](c <-chan T) int {
	if c == nil {
		return 0
	}
	return len(c) + chanLen(*(*unsafe.Pointer)(unsafe.Pointer(&c)), c, cap(c))
}

func chanLen(key unsafe.Pointer, c any, cap int) int { return chanOf(key, c, cap).n }

func RangeChan[T any](c <-chan T) func(yield func(T) bool) {
	return func(yield func(T) bool) {
		for {
			v, ok := NRecv2(c)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Case is a communication of a select statement.
type Case interface {
	op() *chanOp
	set(v any, ok bool)
}

// RCase is a receiving one; V and OK are what was received.
type RCase[T any] struct {
	V  T
	OK bool
	o  *chanOp
}

func (r *RCase[T]) op() *chanOp { return r.o }
func (r *RCase[T]) set(v any, ok bool) {
	if v != nil {
		r.V = v.(T)
	}
	r.OK = ok
}

func R[T any](c <-chan T) *RCase[T] { return &RCase[T]{o: recvOp(c)} }

// WCase is a sending one.
type WCase struct{ o *chanOp }

func (w *WCase) op() *chanOp   { return w.o }
func (w *WCase) set(any, bool) {}

func W[T any](c chan<- T) func(T) *WCase {
	return func(v T) *WCase { return &WCase{o: sendOp(c, v)} }
}

// Select replaces a select statement. It returns the number of the case, or -1
// for the default.
func Select(def bool, cases ...Case) int {
	ops := make([]*chanOp, len(cases))
	for i, c := range cases {
		ops[i] = c.op()
	}
	idx, v, ok := communicate(ops, def)
	if idx >= 0 {
		cases[idx].set(v, ok)
	}
	return idx
}

// Forever replaces an empty select statement.
func Forever() { communicate(nil, false) }
