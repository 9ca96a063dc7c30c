// Package simrt is the simulator's runtime: a token-passing scheduler that
// decides every interleaving of the code under test, the simulated clock, and
// the process-restart registry.
//
// Exactly one task runs at any time. A task gives the token away only at
// scheduling points inserted by the instrumenter, in simulated blocking
// operations and when it ends; who runs next is decided by a seeded strategy
// or by an explicit recorded schedule. The hand-over is hidden from the race
// detector, so two accesses that the code under test does not order itself are
// still reported as a race even though the simulator ran them one by one.
package simrt

import (
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"time"
)

// Seg is one segment of a schedule: task T ran for N scheduling points and was
// then preempted, or (B) ran until it blocked, yielded or ended.
type Seg struct {
	T int  `json:"t"`
	N int  `json:"n"`
	B bool `json:"b,omitempty"`
}

// Spec selects a scheduling strategy.
type Spec struct {
	Kind  string  `json:"kind"` // seq, rand, pct, site, rr, explicit
	Seed  uint64  `json:"seed,omitempty"`
	P     float64 `json:"p,omitempty"`     // rand, site: switch probability
	Depth int     `json:"depth,omitempty"` // pct: change points
	Len   int     `json:"len,omitempty"`   // pct: assumed run length
	Q     int     `json:"q,omitempty"`     // rr: quantum
	Segs  []Seg   `json:"segs,omitempty"`
}

type status uint8

const (
	stReady status = iota
	stBlocked
	stStalled
	stDone
)

// Task is one simulated thread of control.
type Task struct {
	ID       int
	Name     string
	Op       int // index of the operation being executed, -1 outside
	Daemon   bool
	wake     chan struct{}
	exited   chan struct{}
	st       status
	wait     string
	prio     uint64
	killed   bool
	until    time.Duration // when a stall ends, 0: only when nothing else can run
	device   bool          // the stall is a device's, not a sleep
	chanWait bool          // blocked in a channel operation
	adopted  bool          // a goroutine from outside a run, waiting
	next     *Task
	lastSite int
	spun     uint // how often it was displaced for fairness
	spunOp   int  // during this operation
	Local    any
}

const maxTasks = 4096
const maxSegs = 1 << 16

// fairQ bounds how long a task runs while others are ready, whatever the
// strategy: code that waits by polling makes progress. The bound shrinks down
// to fairMin for a task that keeps running into it, and grows again with the
// operations that it completes and whenever it blocks. In a given schedule, which tells when to switch, it applies later.
const (
	fairQ        = 20_000
	fairMin      = 64
	fairExplicit = 80_000
)

// due reports whether the running task has had its share.
func (s *Sched) due() bool {
	t := s.cur
	if s.count < fairMin || s.count&(fairMin-1) != 0 {
		return false
	}
	if t.spunOp != t.Op {
		t.spunOp = t.Op
		if t.spun > 0 {
			t.spun--
		}
	}
	q := fairQ >> t.spun
	if s.kind == kExplicit {
		q = fairExplicit
		if s.segIx >= len(s.spec.Segs) {
			q >>= t.spun
		}
	}
	return s.count >= q
}

// drainSteps is how long background tasks may go on after the last caller
// returned. What is not over by then goes on in the next run.
const drainSteps = 50_000

var segBuf [maxSegs]Seg

// Pairs is a bitmap, accumulated over all runs of the process, of hashed
// (site where a task gave up the token, site where the next task resumed).
var Pairs [1 << 12]uint64

const (
	kSeq = iota
	kRand
	kRR
	kPCT
	kSite
	kExplicit
)

var kinds = map[string]int{"": kSeq, "seq": kSeq, "rand": kRand, "rr": kRR, "pct": kPCT, "site": kSite, "explicit": kExplicit}

// Sched is one simulated execution.
type Sched struct {
	tasks []*Task
	ready []*Task
	cur   *Task
	spec  Spec
	rng   Rand
	nbody int
	free  int // finished background tasks whose place can be used again

	Steps   int
	MaxStep int
	limit   int // the step at which something is due: the end, at the latest
	drain   bool
	count   int // scheduling points since the current task was switched in
	cd      int // countdown to the next switch
	segIx   int
	changes []int
	chIx    int
	lowPrio uint64
	siteSet []uint64

	segs     []Seg
	nseg     int
	kind     int
	Switches int
	hash     uint64

	prog     int // progress made; see unstick
	polled   int
	realTry  int
	idle     int // timers fired in a row with no caller running
	nsel     uint64
	aborted  string
	exited   bool
	ExitCode int
	done     chan struct{}
	finished bool
	adoptee  *Task
	panics   []string

	stallHook func(stalled, blocked []*Task)

	Stats SchedStats
}

// SchedStats counts what the scheduler did.
type SchedStats struct {
	Tasks, Daemons, Preempt, Blocks, Stalls, StallForced, ChanOps, Timers, SiteCount int
}

var (
	active  bool
	tearing bool // what a run left behind is being ended
	S       *Sched
	seqN    int
	// carried are the background tasks of the simulated process that go on
	// from one run to the next, until the process ends.
	carried []*Task
)

// SeqLimit bounds code under test that runs outside the scheduler.
const SeqLimit = 50_000_000

// Y is a scheduling point.
func Y(site int) {
	if !active {
		seqN++
		if seqN > SeqLimit {
			seqN = 0
			panic("simrt: no progress: step limit outside the scheduler")
		}
		return
	}
	s := S
	s.Steps++
	s.count++
	s.cur.lastSite = site
	if s.Steps >= s.limit {
		s.atLimit()
		return
	}
	switch s.kind {
	case kRand, kRR:
		s.cd--
		if s.cd > 0 {
			return
		}
	case kPCT:
		if s.chIx >= len(s.changes) || s.Steps < s.changes[s.chIx] {
			if s.due() {
				s.fair(false)
			}
			return
		}
		s.chIx++
		s.lowPrio--
		s.cur.prio = s.lowPrio
	case kSite:
		if s.siteSet[(site>>6)%len(s.siteSet)]&(1<<(site&63)) == 0 || !s.rng.Chance(s.spec.P) {
			if s.due() {
				s.fair(false)
			}
			return
		}
	case kExplicit:
		if s.segIx < len(s.spec.Segs) {
			g := &s.spec.Segs[s.segIx]
			if g.B {
				// A shortened schedule may have left out what this task
				// polls for.
				if s.due() {
					s.fair(false)
				}
				return
			}
			if s.count < g.N {
				return
			}
		} else {
			if s.due() {
				s.fair(false)
			}
			return
		}
	default:
		if s.due() {
			s.fair(false)
		}
		return
	}
	s.preempt()
}

func (s *Sched) atLimit() {
	if s.drain && s.Steps < s.MaxStep {
		// Enough for now: the background goes on in the next run.
		me := s.cur
		s.record(me, true)
		s.finish()
		s.park(me)
		return
	}
	s.abort("step limit")
}

// preempt lets another task run; the caller stays ready.
func (s *Sched) preempt() {
	me := s.cur
	next := s.pick()
	if next == nil || next == me {
		return
	}
	s.Stats.Preempt++
	s.record(me, false)
	s.handoff(me, next)
}

// fair lets another task run, if one is ready. A yield is asked for by the
// code under test and part of the recorded schedule either way.
func (s *Sched) fair(yield bool) {
	me := s.cur
	var next *Task
	if s.kind == kPCT {
		s.lowPrio--
		me.prio = s.lowPrio
	}
	switch {
	case yield && s.kind == kExplicit && s.segIx < len(s.spec.Segs), yield && (s.kind == kRand || s.kind == kSite):
		next = s.pick()
	default:
		s.scan()
		for _, t := range s.ready {
			if t.ID > me.ID {
				next = t
				break
			}
		}
		if next == nil && len(s.ready) > 0 {
			next = s.ready[0]
		}
	}
	if yield {
		s.record(me, true)
	}
	if next == nil || next == me {
		return
	}
	if !yield {
		if me.spun < 16 {
			me.spun++
		}
		s.Stats.Preempt++
		s.record(me, false)
	}
	s.handoff(me, next)
}

func (s *Sched) record(me *Task, blocked bool) {
	if s.nseg < len(s.segs) {
		s.segs[s.nseg] = Seg{T: me.ID, N: s.count, B: blocked}
		s.nseg++
	}
	s.Switches++
	s.hash = Mix2(s.hash, uint64(me.ID)<<40|uint64(me.lastSite)<<1|b2u(blocked))
	s.count = 0
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// scan fires what is due and collects the ready tasks.
func (s *Sched) scan() {
	now := mono()
	if now >= nextDue {
		s.fire(now)
	}
	s.ready = s.ready[:0]
	for _, t := range s.tasks {
		if t.st == stStalled && t.until > 0 && now >= t.until {
			t.st = stReady
		}
		if t.st == stReady {
			s.ready = append(s.ready, t)
		}
	}
}

// pick chooses the task to run next among the ready ones.
func (s *Sched) pick() *Task {
	s.scan()
	ready := s.ready
	n := len(ready)
	if n == 0 {
		return nil
	}
	switch s.kind {
	case kRand:
		s.cd = s.geometric()
		return ready[s.rng.Intn(n)]
	case kSite:
		return ready[s.rng.Intn(n)]
	case kRR:
		s.cd = s.spec.Q
		if s.cd < 1 {
			s.cd = 1
		}
		for i := 0; i < n; i++ {
			if ready[i].ID > s.cur.ID {
				return ready[i]
			}
		}
		return ready[0]
	case kPCT:
		best := ready[0]
		for i := 1; i < n; i++ {
			if ready[i].prio > best.prio {
				best = ready[i]
			}
		}
		return best
	case kExplicit:
		s.segIx++
		for s.segIx < len(s.spec.Segs) {
			for i := 0; i < n; i++ {
				if ready[i].ID == s.spec.Segs[s.segIx].T {
					return ready[i]
				}
			}
			s.segIx++
		}
	}
	for i := 0; i < n; i++ {
		if ready[i] == s.cur {
			return s.cur
		}
	}
	return ready[0]
}

func (s *Sched) geometric() int {
	p := s.spec.P
	if p <= 0 {
		p = 0.01
	}
	// A cheap geometric draw: sum of a uniform with mean 1/p, capped.
	m := int(2 / p)
	if s.rng.Chance(0.1) {
		return 1
	}
	return 1 + s.rng.Intn(m)
}

func (s *Sched) to(me, next *Task) {
	h := Mix2(uint64(me.lastSite+1), uint64(next.lastSite+1)) & (1<<18 - 1)
	Pairs[h>>6] |= 1 << (h & 63)
	if !next.Daemon {
		s.idle = 0
	}
	s.cur = next
}

func (s *Sched) handoff(me, next *Task) {
	s.to(me, next)
	raceDisable()
	next.wake <- struct{}{}
	<-me.wake
	raceEnable()
	if me.killed {
		runtime.Goexit()
	}
}

// leave is called by the running task when it cannot go on (blocked, stalled
// or done). It returns when the task is scheduled again, unless the task is
// done.
func (s *Sched) leave(me *Task) {
	if s.finished {
		s.park(me)
		return
	}
	s.record(me, true)
	if me.st != stStalled {
		me.spun = 0
	}
	if me.st == stDone {
		s.ended(me)
	}
	next := s.pick()
	if next == nil {
		next = s.unstick()
	}
	if next == nil {
		// The execution is over (or was aborted in unstick).
		s.finish()
		s.park(me)
		return
	}
	if next == me {
		s.to(me, me)
		return
	}
	s.to(me, next)
	raceDisable()
	next.wake <- struct{}{}
	if me.st != stDone {
		<-me.wake
	}
	raceEnable()
	if me.killed && me.st != stDone {
		runtime.Goexit()
	}
}

// ended accounts for a task that is over.
func (s *Sched) ended(t *Task) {
	s.prog++
	if t.Daemon {
		s.free++
		return
	}
	if !s.drain && s.adoptee == nil && !s.live() {
		s.drain = true
		if s.Steps+drainSteps < s.limit {
			s.limit = s.Steps + drainSteps
		}
	}
}

func (s *Sched) live() bool {
	for _, t := range s.tasks {
		if t.st != stDone && !t.Daemon {
			return true
		}
	}
	return false
}

func (s *Sched) park(me *Task) {
	if me.st == stDone {
		return
	}
	raceDisable()
	<-me.wake
	raceEnable()
	if me.killed {
		runtime.Goexit()
	}
}

// unstick is called when no task is ready: it lets time pass, ends stalls, or
// declares the run finished or deadlocked.
func (s *Sched) unstick() *Task {
	for {
		if !s.live() {
			return nil
		}
		var stalled, blocked []*Task
		sleeping, open := false, (*Task)(nil)
		for _, t := range s.tasks {
			switch t.st {
			case stStalled:
				if t.device {
					stalled = append(stalled, t)
				} else {
					sleeping = true
				}
				if t.until == 0 && open == nil {
					open = t
				}
			case stBlocked:
				blocked = append(blocked, t)
			}
		}
		// A channel may have been used by code that is not simulated.
		if s.polled != s.prog {
			s.polled = s.prog
			s.realTry = 0
			if t := s.repoll(); t != nil {
				return t
			}
		}
		due := dueNext()
		for _, t := range s.tasks {
			if t.st == stStalled && t.until > 0 && t.until < due {
				due = t.until
			}
		}
		if due < never && s.idle < 10_000 && (open == nil || s.idle < 64) {
			if len(stalled) > 0 && !sleeping && timers == nil && s.stallHook != nil {
				s.stallHook(stalled, blocked)
			}
			s.idle++
			s.prog++
			if d := due - mono(); d > 0 {
				monoBase += d
			}
			if len(stalled) > 0 {
				s.Stats.StallForced++
			}
			if t := s.pick(); t != nil {
				return t
			}
			continue
		}
		if open != nil {
			if open.device && s.stallHook != nil {
				s.stallHook(stalled, blocked)
			}
			s.Stats.StallForced++
			s.prog++
			open.st = stReady
			s.idle = 0
			if t := s.pick(); t != nil {
				return t
			}
			return open
		}
		if s.realTry < 20 {
			// It may still do so, in its own time.
			s.realTry++
			if t := s.repoll(); t != nil {
				raceDisable()
				time.Sleep(time.Millisecond)
				raceEnable()
				return t
			}
		}
		var w []string
		for _, t := range blocked {
			if !t.Daemon {
				w = append(w, fmt.Sprintf("%s waits for %s", t.Name, t.wait))
			}
		}
		s.aborted = "deadlock: " + strings.Join(w, "; ")
		return nil
	}
}

// repoll has the tasks blocked in channel operations look again.
func (s *Sched) repoll() *Task {
	n := 0
	for _, t := range s.tasks {
		if t.st == stBlocked && t.chanWait {
			t.st = stReady
			n++
		}
	}
	if n == 0 {
		return nil
	}
	return s.pick()
}

func (s *Sched) finish() {
	if s.finished {
		return
	}
	s.finished = true
	raceDisable()
	if a := s.adoptee; a != nil {
		s.cur = a
		a.wake <- struct{}{}
	} else {
		close(s.done)
	}
	raceEnable()
}

// abort ends the run from the running task, which does not return.
func (s *Sched) abort(why string) {
	if s.aborted == "" {
		s.aborted = why
	}
	me := s.cur
	s.record(me, true)
	s.finish()
	s.park(me)
}

// Crash ends the simulated process at this point of the running task.
func Crash() {
	if !active {
		return
	}
	S.abort("crash")
	runtime.Goexit()
}

// Result describes how a run ended.
type Result struct {
	Aborted string
	Exited  bool
	Exit    int
	Panics  []string
	Segs    []Seg
	SegsCut bool
	Steps   int
	Hash    uint64
	Races   int
	Stats   SchedStats
}

// Config configures a run.
type Config struct {
	Spec      Spec
	MaxSteps  int
	NumSites  int
	StallHook func(stalled, blocked []*Task)
}

var scratch = &Sched{}

// Run executes the given bodies as tasks under the simulator and returns when
// all of them ended, or the run was aborted. Background tasks of the simulated
// process stay for the next run unless the process ended.
func Run(cfg Config, names []string, bodies []func(t *Task)) Result {
	s := scratch
	*s = Sched{spec: cfg.Spec, MaxStep: cfg.MaxSteps, stallHook: cfg.StallHook, lowPrio: 1 << 20, segs: segBuf[:],
		tasks: s.tasks[:0], ready: s.ready[:0], nbody: len(bodies), polled: -1}
	k, ok := kinds[cfg.Spec.Kind]
	if !ok {
		panic("simrt: unknown schedule kind " + cfg.Spec.Kind)
	}
	s.kind = k
	if s.MaxStep == 0 {
		s.MaxStep = 5_000_000
	}
	s.limit = s.MaxStep
	s.rng.Seed(Mix2(cfg.Spec.Seed, 0x5c4ed))
	s.nsel = Mix2(cfg.Spec.Seed, 0x5e1ec7)
	s.done = make(chan struct{})
	switch s.kind {
	case kPCT:
		d := s.spec.Depth
		l := s.spec.Len
		if l < 1 {
			l = 1000
		}
		for i := 0; i < d; i++ {
			s.changes = append(s.changes, 1+s.rng.Intn(l))
		}
		for i := range s.changes {
			for j := i; j > 0 && s.changes[j] < s.changes[j-1]; j-- {
				s.changes[j], s.changes[j-1] = s.changes[j-1], s.changes[j]
			}
		}
	case kRand:
		s.cd = s.geometric()
	case kRR:
		s.cd = s.spec.Q
	case kSite:
		n := cfg.NumSites/64 + 1
		s.siteSet = make([]uint64, n)
		for i := 0; i < s.spec.Depth; i++ {
			k := s.rng.Intn(n * 64)
			s.siteSet[k>>6] |= 1 << (k & 63)
		}
		s.Stats.SiteCount = s.spec.Depth
	}
	for i, b := range bodies {
		s.spawn(names[i], b, false)
	}
	s.takeCarried()
	races := RaceErrors()
	S = s
	active = true
	var first *Task
	if s.kind == kExplicit {
		s.cur = s.tasks[0]
		s.segIx = -1
		first = s.pick()
	} else {
		s.cur = s.tasks[0]
		first = s.tasks[s.rng.Intn(s.nbody)]
		if s.kind == kPCT {
			first = s.pick()
		} else if s.kind == kSeq {
			first = s.tasks[0]
		}
	}
	s.cur = first
	raceDisable()
	first.wake <- struct{}{}
	<-s.done
	raceEnable()
	active = false
	monoBase += time.Duration(s.Steps) * StepTime
	S = nil
	races = RaceErrors() - races
	if s.aborted != "" {
		// The process is over.
		carried = carried[:0]
		endTasks(s.tasks)
		endTimers()
	} else {
		s.keepCarried()
		for _, t := range s.tasks[:s.nbody] {
			<-t.exited
		}
	}
	r := Result{Aborted: s.aborted, Exited: s.exited, Exit: s.ExitCode, Panics: s.panics, Steps: s.Steps, Hash: s.hash,
		Races: races, Stats: s.Stats}
	r.Segs = append([]Seg(nil), s.segs[:s.nseg]...)
	r.SegsCut = s.nseg == maxSegs
	for i := range s.tasks {
		s.tasks[i] = nil
	}
	return r
}

// endTasks ends tasks where they are, one after the other.
func endTasks(ts []*Task) {
	tearing = true
	for _, t := range ts {
		if t.st != stDone {
			t.killed = true
			raceDisable()
			t.wake <- struct{}{}
			raceEnable()
		}
		if t.adopted {
			continue
		}
		<-t.exited
	}
	tearing = false
}

// endProcess ends what a simulated process leaves behind.
func endProcess() {
	ts := carried
	carried = nil
	endTasks(ts)
	endTimers()
	endChans()
	endFinalizers()
}

func (s *Sched) takeCarried() {
	for _, t := range carried {
		t.ID = len(s.tasks)
		t.lastSite = -1
		t.prio = 1<<32 + s.rng.U64()>>8
		s.tasks = append(s.tasks, t)
	}
	carried = carried[:0]
}

func (s *Sched) keepCarried() {
	carried = carried[:0]
	for _, t := range s.tasks {
		if t.Daemon && t.st != stDone {
			carried = append(carried, t)
		}
	}
}

func newTask(name string, body func(t *Task), daemon bool) *Task {
	t := &Task{Name: name, Op: -1, Daemon: daemon, wake: make(chan struct{}, 1), exited: make(chan struct{}), lastSite: -1}
	go func() {
		raceDisable()
		<-t.wake
		raceEnable()
		defer func() {
			if v := recover(); v != nil && !t.killed && S != nil {
				S.panics = append(S.panics, fmt.Sprintf("%s: %v", t.Name, v))
			}
			killed := t.killed
			t.st = stDone
			if !killed && S != nil {
				S.leave(t)
			}
			close(t.exited)
		}()
		if t.killed {
			return
		}
		body(t)
	}()
	return t
}

func (s *Sched) spawn(name string, body func(t *Task), daemon bool) *Task {
	t := newTask(name, body, daemon)
	t.prio = 1<<32 + s.rng.U64()>>8
	s.prog++
	s.Stats.Tasks++
	if daemon {
		s.Stats.Daemons++
	}
	if s.free > 0 {
		for i := s.nbody; i < len(s.tasks); i++ {
			if o := s.tasks[i]; o.st == stDone && o.Daemon {
				s.free--
				t.ID = i
				s.tasks[i] = t
				return t
			}
		}
	}
	t.ID = len(s.tasks)
	s.tasks = append(s.tasks, t)
	if len(s.tasks) > maxTasks && active {
		s.abort("too many tasks")
	}
	return t
}

// enter returns the running task. Code under test that has to wait outside a
// run becomes a task for as long as it waits; leaveRun ends that.
func enter() *Task {
	if active {
		return S.cur
	}
	s := &Sched{MaxStep: SeqLimit, limit: SeqLimit, polled: -1, nbody: 1}
	t := &Task{Name: "the caller", Op: -1, wake: make(chan struct{}, 1), adopted: true, lastSite: -1}
	s.tasks = append(s.tasks, t)
	s.adoptee = t
	s.cur = t
	s.takeCarried()
	S = s
	active = true
	return t
}

func leaveRun(t *Task) {
	if !t.adopted {
		return
	}
	s := S
	active = false
	S = nil
	monoBase += time.Duration(s.Steps) * StepTime
	s.keepCarried()
	if s.aborted != "" {
		endProcess()
		panic("simrt: outside a run: " + s.aborted)
	}
	if len(s.panics) > 0 {
		panic(s.panics[0])
	}
}

// Cur returns the running task, or nil outside a run.
func Cur() *Task {
	if !active {
		return nil
	}
	return S.cur
}

// Active reports whether a simulated run is in progress.
func Active() bool { return active }

// Step returns the global event sequence number.
func Step() int {
	if !active {
		return 0
	}
	return S.Steps
}

// Block parks the running task until Wake. It reports false when the task is
// being ended.
func Block(why string) bool {
	if tearing {
		return false
	}
	t := enter()
	block(t, why)
	leaveRun(t)
	return true
}

func block(me *Task, why string) {
	s := S
	me.st = stBlocked
	me.wait = why
	s.Stats.Blocks++
	s.leave(me)
}

// Wake makes a blocked task ready again.
func Wake(t *Task) {
	if t.st == stBlocked {
		t.st = stReady
		if S != nil {
			S.prog++
		}
	}
}

// Stall parks the running task for a number of steps; 0 means until nothing
// else can run.
func Stall(steps int) {
	if active {
		stall(time.Duration(steps)*time.Microsecond, true)
	}
}

func stall(d time.Duration, device bool) {
	s := S
	me := s.cur
	me.st = stStalled
	me.wait = "a stalled device"
	me.device = device
	me.until = 0
	if d > 0 {
		me.until = mono() + d
	}
	s.Stats.Stalls++
	s.leave(me)
}

// Waiter is a FIFO of blocked tasks for simulated synchronisation objects.
type Waiter struct{ head, tail *Task }

func (w *Waiter) Empty() bool { return w.head == nil }

// Wait enqueues the running task and blocks it.
func (w *Waiter) Wait(why string) bool {
	if tearing {
		return false
	}
	t := enter()
	t.next = nil
	if w.tail == nil {
		w.head, w.tail = t, t
	} else {
		w.tail.next = t
		w.tail = t
	}
	block(t, why)
	leaveRun(t)
	return true
}

// WakeOne wakes the first waiter.
func (w *Waiter) WakeOne() *Task {
	t := w.head
	if t == nil {
		return nil
	}
	w.head = t.next
	if w.head == nil {
		w.tail = nil
	}
	t.next = nil
	Wake(t)
	return t
}

// WakeAll wakes all waiters.
func (w *Waiter) WakeAll() {
	for w.WakeOne() != nil {
	}
}

// Killed reports whether tasks are being torn down.
func Killed() bool { return tearing }

// GoFunc starts a background task from the code under test.
func GoFunc(f func()) {
	if tearing {
		return
	}
	if !active {
		// It runs when its creator waits for something, or with the next run.
		carried = append(carried, newTask("goroutine", func(*Task) { f() }, true))
		if len(carried)%32 == 0 {
			t := enter()
			stall(0, false)
			leaveRun(t)
		}
		return
	}
	op := S.cur.Op
	local := S.cur.Local
	t := S.spawn("goroutine", func(*Task) { f() }, true)
	t.Name = "goroutine-" + strconv.Itoa(t.ID)
	t.Op = op
	t.Local = local
	Y(0)
}

// Gosched replaces runtime.Gosched.
func Gosched() {
	if !active {
		if len(carried) > 0 && !tearing {
			t := enter()
			stall(0, false)
			leaveRun(t)
		}
		return
	}
	S.fair(true)
}
