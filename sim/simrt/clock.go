package simrt

import (
	"time"
	"unsafe"
)

// Simulated time: a scheduling point takes StepTime; time also passes
// when nothing can run, and when the scenario says so (Advance). The wall
// clock is the monotonic clock plus an offset.

const never = time.Duration(1<<63 - 1)

var (
	epoch    = time.Date(2024, 3, 9, 12, 0, 0, 0, time.UTC)
	monoBase time.Duration
	wallOff  time.Duration
	timers   *rtTimer // by time
	nextDue  = never
	// StepTime is how long a scheduling point takes.
	StepTime = time.Microsecond
)

// Begin starts the clocks of a new simulated world, in which nothing runs.
func Begin() {
	endProcess()
	monoBase, wallOff = 0, 0
}

func mono() time.Duration {
	if S != nil {
		return monoBase + time.Duration(S.Steps)*StepTime
	}
	return monoBase
}

// Waited is the simulated time that has passed because nothing could run, or
// because the scenario let it pass.
func Waited() time.Duration { return monoBase }

// Now is the simulated clock; Advance lets time pass.
func Now() time.Time                  { return epoch.Add(mono() + wallOff) }
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Epoch() time.Time                { return epoch }

// Advance lets time pass; a negative amount only sets the wall clock back.
func Advance(d time.Duration) {
	if d < 0 {
		wallOff += d
		return
	}
	monoBase += d
}

// Sleep lets simulated time pass while others run.
func Sleep(d time.Duration) {
	if tearing {
		return
	}
	if d <= 0 {
		Y(0)
		return
	}
	t := enter()
	stall(d, false)
	leaveRun(t)
}

// ---- timers ----

type rtTimer struct {
	when, period time.Duration
	f            func() // AfterFunc
	c            chan time.Time
	on           bool
	next         *rtTimer
	sync         uint64
}

func (t *rtTimer) start(d time.Duration) {
	if d < 0 {
		d = 0
	}
	RaceRelease(unsafe.Pointer(&t.sync))
	t.when = mono() + d
	t.on = true
	p := &timers
	for *p != nil && (*p).when <= t.when {
		p = &(*p).next
	}
	t.next = *p
	*p = t
	nextDue = timers.when
}

func (t *rtTimer) stop() bool {
	was := t.on
	t.on = false
	for p := &timers; *p != nil; p = &(*p).next {
		if *p == t {
			*p = t.next
			t.next = nil
			break
		}
	}
	nextDue = dueNext()
	return was
}

func dueNext() time.Duration {
	if timers == nil {
		return never
	}
	return timers.when
}

var firing bool

// fire runs the timers that are due.
func (s *Sched) fire(now time.Duration) {
	firing = true
	defer func() { firing = false }()
	for timers != nil && timers.when <= now {
		t := timers
		timers = t.next
		t.next = nil
		t.on = false
		s.Stats.Timers++
		if t.f != nil {
			f := t.f
			s.spawn("timer", func(*Task) {
				RaceAcquire(unsafe.Pointer(&t.sync))
				f()
			}, true)
		} else {
			chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&t.c)), t.c, cap(t.c)).push(Now())
		}
		if t.period > 0 {
			d := t.when + t.period - mono()
			for d <= 0 { // ticks are dropped, as for a slow receiver
				d += t.period
			}
			t.start(d)
		}
	}
	nextDue = dueNext()
}

// Background counts what is left of the simulated process between runs:
// goroutines that have not ended, and timers.
func Background() int {
	n := len(carried)
	for t := timers; t != nil; t = t.next {
		n++
	}
	return n
}

func endTimers() {
	timers = nil
	nextDue = never
}

// Timer replaces time.Timer.
type Timer struct {
	C <-chan time.Time
	t rtTimer
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c}
	t.t.c = c
	t.t.start(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{}
	t.t.f = f
	t.t.start(d)
	return t
}

func (t *Timer) Stop() bool {
	t.drain()
	return t.t.stop()
}

// drain discards a stale value, as timers do since Go 1.23.
func (t *Timer) drain() {
	if t.t.c != nil {
		c := chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&t.t.c)), t.t.c, 1)
		c.head, c.n = 0, 0
	}
}

func (t *Timer) Reset(d time.Duration) bool {
	t.drain()
	was := t.t.stop()
	t.t.start(d)
	return was
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Ticker replaces time.Ticker.
type Ticker struct {
	C <-chan time.Time
	t rtTimer
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c}
	t.t.c = c
	t.t.period = d
	t.t.start(d)
	return t
}

func (t *Ticker) Stop() { t.t.stop() }
func (t *Ticker) Reset(d time.Duration) {
	t.t.stop()
	t.t.period = d
	t.t.start(d)
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
