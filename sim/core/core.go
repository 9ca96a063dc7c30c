// Package core holds what all simulators share: scenarios, outcomes, the
// seeded search loop, minimisation and replay.
package core

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"time"
	"unicode"

	"github.com/mearaj/bips/zzverif/ref"
	"github.com/mearaj/bips/zzverif/simrt"
)

// ReadStep is what one read of the randomness source does.
type ReadStep struct {
	N     int    `json:"n"`               // bytes delivered at most; -1: as many as asked
	Err   string `json:"err,omitempty"`   // error returned with them
	Stall int    `json:"stall,omitempty"` // stall before: >0 steps, <0 until nothing else can run
}

// ReadPlan is the behaviour of the randomness source during one operation.
type ReadPlan struct {
	Steps []ReadStep `json:"steps,omitempty"`
	Tail  string     `json:"tail,omitempty"` // after Steps: "" full reads, "fail" error for ever, "one" single bytes
	Pat   string     `json:"pat,omitempty"`  // byte pattern: "" random, zero, ff, lead<k>
}

// Op is one operation of a task.
type Op struct {
	K     string    `json:"k"`
	S     string    `json:"s,omitempty"`
	S2    string    `json:"s2,omitempty"`
	H     string    `json:"h,omitempty"`
	Key   int       `json:"key,omitempty"` // 1-based index into Keys
	Buf   int       `json:"buf,omitempty"` // 1-based index into Bufs
	I     uint32    `json:"i,omitempty"`
	J     uint32    `json:"j,omitempty"`
	N     int       `json:"n,omitempty"`
	F     bool      `json:"f,omitempty"`
	V     []uint32  `json:"v,omitempty"`
	Plan  *ReadPlan `json:"plan,omitempty"`
	Slack int       `json:"slack,omitempty"` // spare capacity behind the argument
	Scrib int       `json:"scrib,omitempty"` // 1: overwrite arguments afterwards, 2: overwrite results
}

// Task is a caller thread.
type Task struct {
	Ops []Op `json:"ops"`
}

// Phase is a part of a run between restarts or word-list changes.
type Phase struct {
	Restart bool       `json:"restart,omitempty"`
	MapSeed uint64     `json:"mapseed,omitempty"`
	List    string     `json:"list,omitempty"`  // word list set before the phase
	Scrib   bool       `json:"scrib,omitempty"` // the caller overwrites its slice after setting the list
	Storm   bool       `json:"storm,omitempty"` // one task sets the word list while others use it
	Same    bool       `json:"same,omitempty"`  // the tasks of the last phase that has its own, once more
	Tasks   []Task     `json:"tasks"`
	Sched   simrt.Spec `json:"sched"`
}

// Step is one event of an event-driven simulation (disk, network, window).
type Step struct {
	K  string    `json:"k"`
	A  int       `json:"a,omitempty"`
	B  int       `json:"b,omitempty"`
	C  int       `json:"c,omitempty"`
	D  int       `json:"d,omitempty"`
	S  string    `json:"s,omitempty"`
	F  string    `json:"f,omitempty"`
	P  *ReadPlan `json:"p,omitempty"`
	MS float64   `json:"ms,omitempty"`
}

// Scenario is one simulated execution, completely described.
type Scenario struct {
	Prop   string            `json:"prop"`
	Seed   uint64            `json:"seed"`
	Mode   string            `json:"mode"`
	Keys   []string          `json:"keys,omitempty"`
	Bufs   []string          `json:"bufs,omitempty"`
	Slack  []int             `json:"slack,omitempty"`
	Phases []Phase           `json:"phases,omitempty"`
	Steps  []Step            `json:"steps,omitempty"`
	Strs   map[string]string `json:"strs,omitempty"`
	Ints   map[string]int    `json:"ints,omitempty"`
	Sched  simrt.Spec        `json:"sched"`
	Spot   bool              `json:"spot,omitempty"` // callers use the same memory for one argument after another
}

// Violation is a broken property.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

// Outcome is what a run did and whether the property held.
type Outcome struct {
	Viol    []Violation
	Segs    [][]simrt.Seg // one per phase
	SegsCut bool
	Hash    uint64 // digest of the event log
	Shape   uint64 // digest of the schedule and fault decisions alone
	Steps   int
	Ops     int
	Preempt int
	Fired   int // faults that took effect
	SimTime time.Duration
	Log     []string
}

func (o *Outcome) Fail(class, format string, a ...any) {
	o.Viol = append(o.Viol, Violation{class, fmt.Sprintf(format, a...)})
}

// Event adds a line to the event log.
func (o *Outcome) Event(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	h := fnv.New64a()
	h.Write([]byte(s))
	o.Hash = simrt.Mix2(o.Hash, h.Sum64())
	if KeepLog {
		o.Log = append(o.Log, s)
	}
}

// KeepLog makes runs keep their event log in memory.
var KeepLog bool

// Counters, by name; only ever touched by the main goroutine.
var (
	Faults = map[string]int{}
	Probes = map[string]int{}
)

// Fault counts an injected fault that fired.
func (o *Outcome) Fault(name string) { Faults[name]++; o.Fired++ }

// Probe counts a rare condition that was reached.
func Probe(name string) { Probes[name]++ }

// Known are the classes of the known findings. Each stands for one specific
// history that a simulator recognises; any other violation is reported.
var Known = map[string]bool{}

// IsKnown reports whether a history that just occurred is a known finding.
func IsKnown(class string) bool {
	if Known[class] {
		Probe("known." + class)
	}
	return Known[class]
}

// Sim is a simulator for some properties.
type Sim interface {
	Gen(prop string, seed uint64, thorough bool) *Scenario
	Run(sc *Scenario) *Outcome
}

// Clone copies a scenario.
func (sc *Scenario) Clone() *Scenario {
	b, err := json.Marshal(sc)
	if err != nil {
		panic(err)
	}
	var n Scenario
	if err := json.Unmarshal(b, &n); err != nil {
		panic(err)
	}
	return &n
}

// Pin replaces the scheduling strategies by the schedule that was taken.
func (sc *Scenario) Pin(o *Outcome) *Scenario {
	n := sc.Clone()
	for i := range n.Phases {
		if i < len(o.Segs) {
			n.Phases[i].Sched = simrt.Spec{Kind: "explicit", Segs: o.Segs[i], Seed: n.Phases[i].Sched.Seed}
		}
	}
	if len(n.Phases) == 0 && len(o.Segs) > 0 {
		n.Sched = simrt.Spec{Kind: "explicit", Segs: o.Segs[0], Seed: n.Sched.Seed}
	}
	return n
}

// Replay is the file format of a reported violation.
type Replay struct {
	Property string    `json:"property"`
	Class    string    `json:"class"`
	Detail   string    `json:"detail"`
	RootSeed uint64    `json:"root_seed"`
	Index    int       `json:"index"`
	Build    string    `json:"build,omitempty"` // which simulator binary: race, plain, gui
	Shrunk   string    `json:"shrunk,omitempty"`
	Log      []string  `json:"log,omitempty"`
	Scenario *Scenario `json:"scenario"`
}

// Stats is what a worker reports.
type Stats struct {
	Runs       int            `json:"runs"`
	Steps      int            `json:"steps"`
	Ops        int            `json:"ops"`
	Preempt    int            `json:"preemptions"`
	Fired      int            `json:"faults_fired"`
	SimSeconds float64        `json:"sim_seconds"`
	Faults     map[string]int `json:"faults"`
	Probes     map[string]int `json:"probes"`
	Shapes     []uint64       `json:"shapes"` // distinct non-trivial shapes
	Pairs      []uint64       `json:"pairs"`  // switch-site bitmap
	MapIters   int            `json:"map_iters"`
	Samples    []string       `json:"samples"`
	Wall       float64        `json:"wall"`
	Hashes     []string       `json:"hashes,omitempty"`
	Found      *Replay        `json:"found,omitempty"`
	Known      map[string]int `json:"known,omitempty"`
}

// SeedFor derives the seed of run i.
func SeedFor(root uint64, prop string, i int) uint64 {
	return simrt.Mix2(simrt.MixS(root, prop), uint64(i))
}

var progressFile *os.File

// NumSites is the number of scheduling points in the instrumented code.
var NumSites int

func die(code int, format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(code)
}

// Main is the command line of a simulator binary.
// watchMemory ends the process, as the operating system would, when the code
// under test takes more and more memory.
func watchMemory() {
	m := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(20 * time.Millisecond)
		if metrics.Read(m); m[0].Value.Uint64() > 3<<30 {
			os.Stderr.WriteString("fatal error: the memory of the simulated process is used up\n")
			os.Exit(2)
		}
	}
}

func Main(sim Sim) {
	cmd := "run"
	if len(os.Args) > 1 {
		cmd = os.Args[1]
	}
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	root := fs.Uint64("seed", 1, "root seed")
	start := fs.Int("start", 0, "first run index")
	stride := fs.Int("stride", 1, "index stride")
	max := fs.Int("max", 1<<30, "number of runs")
	secs := fs.Float64("secs", 10, "time budget in seconds")
	out := fs.String("out", "", "result file")
	in := fs.String("in", "", "input file")
	thorough := fs.Bool("thorough", false, "thorough tier")
	hashes := fs.Bool("hashes", false, "report the digest of every run")
	sites := fs.Int("sites", 0, "number of scheduling points")
	gomax := fs.Int("gomaxprocs", 1, "GOMAXPROCS")
	progress := fs.String("progress", "", "file that holds the index of the run in progress")
	build := fs.String("build", "", "name of this build")
	known := fs.String("known", "", "classes of the known findings")
	fs.Parse(os.Args[2:])
	for _, c := range strings.Split(*known, ",") {
		Known[c] = c != ""
	}
	os.Args = os.Args[:1]
	NumSites = *sites
	runtime.GOMAXPROCS(*gomax)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	go watchMemory()
	if err := ref.SelfTest(); err != nil {
		die(4, "%v", err)
	}
	switch cmd {
	case "run":
		if *progress != "" {
			f, err := os.Create(*progress)
			if err != nil {
				die(4, "%v", err)
			}
			progressFile = f
		}
		st := search(sim, *prop, *root, *start, *stride, *max, *secs, *thorough, *hashes)
		if st.Found != nil {
			st.Found.Build = *build
		}
		b, _ := json.Marshal(st)
		if *out == "" {
			os.Stdout.Write(append(b, '\n'))
		} else if err := os.WriteFile(*out, b, 0o644); err != nil {
			die(4, "%v", err)
		}
	case "min":
		r := load(*in)
		m := minimise(sim, r, time.Duration(*secs*float64(time.Second)))
		b, _ := json.MarshalIndent(m, "", " ")
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			die(4, "%v", err)
		}
	case "replay":
		r := load(*in)
		KeepLog = true
		o := sim.Run(r.Scenario)
		for _, l := range o.Log {
			fmt.Println(l)
		}
		hit := false
		for _, v := range o.Viol {
			fmt.Printf("VIOLATED %s [%s] %s\n", r.Property, v.Class, v.Detail)
			hit = hit || v.Class == r.Class
		}
		fmt.Printf("digest %016x\n", o.Hash)
		if !hit {
			fmt.Println("NOT-REPRODUCED")
			os.Exit(5)
		}
		fmt.Println("REPRODUCED")
	case "gen":
		sc := sim.Gen(*prop, SeedFor(*root, *prop, *start), *thorough)
		b, _ := json.MarshalIndent(&Replay{Property: *prop, Scenario: sc, RootSeed: *root, Index: *start, Build: *build}, "", " ")
		os.Stdout.Write(append(b, '\n'))
	default:
		die(4, "unknown command %q", cmd)
	}
}

func load(path string) *Replay {
	b, err := os.ReadFile(path)
	if err != nil {
		die(4, "%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		die(4, "%v", err)
	}
	return &r
}

func search(sim Sim, prop string, root uint64, start, stride, max int, secs float64, thorough, hashes bool) *Stats {
	st := &Stats{}
	t0 := time.Now()
	seen := map[uint64]bool{}
	for i := 0; i < max; i++ {
		if time.Since(t0).Seconds() > secs {
			break
		}
		ix := start + i*stride
		if progressFile != nil {
			progressFile.WriteAt([]byte(fmt.Sprintf("%020d", ix)), 0)
		}
		sc := sim.Gen(prop, SeedFor(root, prop, ix), thorough)
		o := sim.Run(sc)
		st.Runs++
		st.Steps += o.Steps
		st.Ops += o.Ops
		st.Preempt += o.Preempt
		st.Fired += o.Fired
		st.SimSeconds += o.SimTime.Seconds()
		if (o.Preempt > 0 || o.Fired > 0) && len(seen) < 1<<20 {
			seen[o.Shape] = true
		}
		if hashes {
			st.Hashes = append(st.Hashes, fmt.Sprintf("%d %016x %016x %d", ix, o.Hash, o.Shape, o.Steps))
		}
		if len(st.Samples) < 2 && i >= 2 && i < 200 && i%2 == 0 {
			if b, err := json.Marshal(sc); err == nil && len(b) < 6000 {
				st.Samples = append(st.Samples, string(b))
			}
		}
		if len(o.Viol) > 0 {
			v := o.Viol[0]
			st.Found = &Replay{Property: prop, Class: v.Class, Detail: v.Detail, RootSeed: root, Index: ix, Scenario: sc.Pin(o)}
			if o.SegsCut {
				st.Found.Scenario = sc
			}
			break
		}
	}
	for h := range seen {
		st.Shapes = append(st.Shapes, h)
	}
	sort.Slice(st.Shapes, func(i, j int) bool { return st.Shapes[i] < st.Shapes[j] })
	st.Pairs = simrt.Pairs[:]
	st.MapIters = simrt.MapIter
	st.Faults, st.Probes = Faults, Probes
	st.Wall = time.Since(t0).Seconds()
	return st
}

// ---- minimisation ----

type shrinker struct {
	sim   Sim
	class string
	best  *Scenario
	det   string
	until time.Time
	tries int
}

func has(o *Outcome, class string) (string, bool) {
	for _, v := range o.Viol {
		if v.Class == class {
			return v.Detail, true
		}
	}
	return "", false
}

// try runs a candidate, with its own schedule first and then with simple and
// a few random ones; a candidate that still fails becomes the best.
func (s *shrinker) try(c *Scenario, reschedule bool) bool {
	if time.Now().After(s.until) {
		return false
	}
	vs := []*Scenario{c}
	if reschedule && c.Threads() > 1 {
		for i := 0; i < 6; i++ {
			n := c.Clone()
			sp := simrt.Spec{Kind: "seq"}
			switch i {
			case 1:
				sp = simrt.Spec{Kind: "rr", Q: 1}
			case 2:
				sp = simrt.Spec{Kind: "rr", Q: 3}
			case 3, 4, 5:
				sp = simrt.Spec{Kind: "rand", P: []float64{0.5, 0.1, 0.03}[i-3], Seed: uint64(i)}
			}
			for j := range n.Phases {
				n.Phases[j].Sched = sp
			}
			vs = append(vs, n)
		}
	}
	for _, v := range vs {
		s.tries++
		o := s.sim.Run(v)
		if d, ok := has(o, s.class); ok {
			s.best = v.Pin(o)
			s.det = d
			return true
		}
		if time.Now().After(s.until) {
			return false
		}
	}
	return false
}

// Threads is the largest number of tasks with work in a phase.
func (sc *Scenario) Threads() int {
	m := 0
	for _, p := range sc.Phases {
		n := 0
		for _, t := range p.Tasks {
			if len(t.Ops) > 0 {
				n++
			}
		}
		if n > m {
			m = n
		}
	}
	return m
}

func minimise(sim Sim, r *Replay, budget time.Duration) *Replay {
	s := &shrinker{sim: sim, class: r.Class, best: r.Scenario, det: r.Detail, until: time.Now().Add(budget)}
	size0 := r.Scenario.size()
	if !s.try(r.Scenario.Clone(), false) {
		r.Shrunk = "the violation did not recur in the minimiser; left as found"
		return r
	}
	for changed := true; changed && time.Now().Before(s.until); {
		changed = false
		// Whole phases.
		for i := len(s.best.Phases) - 1; i >= 0 && len(s.best.Phases) > 1; i-- {
			c := s.best.Clone()
			c.Phases = append(c.Phases[:i], c.Phases[i+1:]...)
			changed = s.try(c, true) || changed
		}
		// Whole tasks (kept as empty tasks, so that indices stay).
		for i := range s.best.Phases {
			for j := range s.best.Phases[i].Tasks {
				if i < len(s.best.Phases) && len(s.best.Phases[i].Tasks[j].Ops) > 0 {
					c := s.best.Clone()
					c.Phases[i].Tasks[j].Ops = nil
					changed = s.try(c, true) || changed
				}
			}
		}
		// Runs of operations.
		for i := range s.best.Phases {
			for j := range s.best.Phases[i].Tasks {
				for w := len(s.best.Phases[i].Tasks[j].Ops) / 2; w >= 1; w /= 2 {
					for k := 0; k+w <= len(s.best.Phases[i].Tasks[j].Ops); {
						c := s.best.Clone()
						ops := c.Phases[i].Tasks[j].Ops
						c.Phases[i].Tasks[j].Ops = append(append([]Op{}, ops[:k]...), ops[k+w:]...)
						if s.try(c, true) {
							changed = true
						} else {
							k += w
						}
					}
				}
			}
		}
		// Simpler operations.
		for i := range s.best.Phases {
			for j := range s.best.Phases[i].Tasks {
				for k := range s.best.Phases[i].Tasks[j].Ops {
					for _, f := range opSimpler {
						c := s.best.Clone()
						if f(&c.Phases[i].Tasks[j].Ops[k]) {
							changed = s.try(c, false) || changed
						}
					}
				}
			}
		}
		// Steps.
		for w := (len(s.best.Steps) + 1) / 2; w >= 1; w /= 2 {
			for k := 0; k+w <= len(s.best.Steps); {
				c := s.best.Clone()
				c.Steps = append(append([]Step{}, s.best.Steps[:k]...), s.best.Steps[k+w:]...)
				if s.try(c, false) {
					changed = true
				} else {
					k += w
				}
			}
		}
		for k := range s.best.Steps {
			for _, f := range stepSimpler {
				c := s.best.Clone()
				if f(&c.Steps[k]) {
					changed = s.try(c, false) || changed
				}
			}
		}
		// Schedule.
		for i := range s.best.Phases {
			for w := len(s.best.Phases[i].Sched.Segs) / 2; w >= 1; w /= 2 {
				for k := 0; k+w <= len(s.best.Phases[i].Sched.Segs); {
					before := len(s.best.Phases[i].Sched.Segs)
					c := s.best.Clone()
					sg := c.Phases[i].Sched.Segs
					c.Phases[i].Sched.Segs = append(append([]simrt.Seg{}, sg[:k]...), sg[k+w:]...)
					if s.try(c, false) && len(s.best.Phases[i].Sched.Segs) < before {
						changed = true
					} else {
						k += w
					}
					if time.Now().After(s.until) {
						break
					}
				}
			}
		}
	}
	r.Scenario, r.Detail = s.best, s.det
	KeepLog = true
	if o := sim.Run(s.best); true {
		if d, ok := has(o, s.class); ok {
			r.Detail = d
			r.Log = o.Log
			if len(r.Log) > 400 {
				r.Log = append(r.Log[:200:200], append([]string{"..."}, r.Log[len(r.Log)-199:]...)...)
			}
		}
	}
	r.Shrunk = fmt.Sprintf("from %s to %s in %d trial runs", size0, s.best.size(), s.tries)
	return r
}

var opSimpler = []func(o *Op) bool{
	func(o *Op) bool { c := o.Slack != 0; o.Slack = 0; return c },
	func(o *Op) bool { c := o.Scrib != 0; o.Scrib = 0; return c },
	func(o *Op) bool { c := len(o.V) > 1; o.V = o.V[:len(o.V)/2]; return c },
	func(o *Op) bool { c := o.S2 != ""; o.S2 = ""; return c },
	func(o *Op) bool {
		if o.Plan == nil || len(o.Plan.Steps) == 0 {
			return false
		}
		o.Plan.Steps = o.Plan.Steps[1:]
		return true
	},
	func(o *Op) bool {
		if o.Plan == nil || o.Plan.Tail != "one" {
			return false
		}
		o.Plan.Tail = ""
		return true
	},
	func(o *Op) bool {
		if o.Plan == nil {
			return false
		}
		ch := false
		for i := range o.Plan.Steps {
			if o.Plan.Steps[i].Stall != 0 {
				o.Plan.Steps[i].Stall = 0
				ch = true
			}
		}
		return ch
	},
}

var stepSimpler = []func(o *Step) bool{
	func(o *Step) bool { c := o.F != ""; o.F = ""; return c },
	func(o *Step) bool { c := o.P != nil; o.P = nil; return c },
	func(o *Step) bool { c := o.C != 0; o.C = 0; return c },
	func(o *Step) bool { c := o.D != 0; o.D = 0; return c },
	func(o *Step) bool { c := len(o.S) > 8; o.S = o.S[:min(len(o.S), 4)]; return c && isASCII(o.S) },
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 128 {
			return false
		}
	}
	return true
}

func (sc *Scenario) size() string {
	ops, tasks, segs := 0, 0, 0
	for _, p := range sc.Phases {
		for _, t := range p.Tasks {
			if len(t.Ops) > 0 {
				tasks++
			}
			ops += len(t.Ops)
		}
		segs += len(p.Sched.Segs)
	}
	if len(sc.Phases) == 0 {
		return fmt.Sprintf("%d steps", len(sc.Steps))
	}
	s := fmt.Sprintf("%d operations, %d tasks, %d phases, %d schedule segments", ops, tasks, len(sc.Phases), segs)
	if len(sc.Steps) > 0 {
		s += fmt.Sprintf(", %d steps", len(sc.Steps))
	}
	return s
}

// Short abbreviates a long string for messages.
func Short(s string) string {
	if len(s) > 160 {
		return s[:100] + "..." + s[len(s)-40:]
	}
	return s
}

// Join is strings.Join for messages.
func Join(a []string) string { return strings.Join(a, "|") }

// Kin changes a text into one it might be confused with.
func Kin(r *simrt.Rand, s string) string {
	t := []rune(s)
	n := len(t)
	if n == 0 {
		return []string{" ", "0", "a", "\x00"}[r.Intn(4)]
	}
	i := r.Intn(n)
	switch r.Intn(16) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2: // one letter in the other case
		for k := range t {
			j := (i + k) % n
			if u := unicode.ToUpper(t[j]); u != t[j] {
				t[j] = u
				break
			}
			if l := unicode.ToLower(t[j]); l != t[j] {
				t[j] = l
				break
			}
		}
	case 3:
		return s + " "
	case 4:
		return " " + s
	case 5:
		return strings.TrimSpace(s)
	case 6: // the same characters in another order
		j := r.Intn(n)
		t[i], t[j] = t[j], t[i]
	case 7:
		t = t[:n-1]
	case 8:
		t = append(t, t[n-1])
	case 9: // the last character
		t[n-1] = near(r, t[n-1])
	case 10: // the first
		t[0] = near(r, t[0])
	case 11: // any
		t[i] = near(r, t[i])
	case 12:
		return Exotic(r, s)
	case 13:
		t = append(t[:i], t[i+1:]...)
	case 14: // the same words in another order
		w := strings.Split(s, " ")
		a, b := r.Intn(len(w)), r.Intn(len(w))
		w[a], w[b] = w[b], w[a]
		return strings.Join(w, " ")
	case 15:
		w := strings.Split(s, "/")
		a, b := r.Intn(len(w)), r.Intn(len(w))
		w[a], w[b] = w[b], w[a]
		return strings.Join(w, "/")
	}
	return string(t)
}

func near(r *simrt.Rand, c rune) rune {
	switch {
	case c >= '0' && c <= '9':
		return '0' + rune(r.Intn(10))
	case c >= 'a' && c <= 'f':
		return 'a' + rune(r.Intn(6))
	case c == '\'':
		return '0'
	case c >= 'a' && c <= 'z', c >= 'A' && c < 'Z':
		return c + 1
	}
	return 'x'
}

// exotic characters and the plain ones that case mapping or normalisation
// takes for them; some have fewer bytes in the other case, some more.
var exotic = map[rune][]rune{
	'k': {'\u212a'}, 's': {'\u017f', '\u1e9e'}, 'i': {'\u0130', '\u0131', '\uff49'}, 'a': {'\u023a', '\u00e5', '\uff41', '\u0430'}, 't': {'\u023e'},
	'e': {'\u0435', '\u00e9', '\u00c9'}, 'o': {'\u043e', '\u2126', '\u00f6'}, 'w': {'\u2c72'}, 'z': {'\u2c6b'}, 'r': {'\u2c64'}, 'l': {'\u2c62', '\u1e36'}, 'f': {'\ufb01'},
	'\'': {'\u2019'}, '/': {'\u2215', '\uff0f'}, '0': {'\u0660', '\uff10'}, '1': {'\u0661', '\uff11', '\u00b9'}, '2': {'\u0662', '\u00b2'}, 'm': {'\uff4d'}, ' ': {'\u00a0', '\u3000'},
}

// Exotic replaces some characters by such relatives.
func Exotic(r *simrt.Rand, s string) string {
	t := []rune(s)
	var at []int
	for i, c := range t {
		if exotic[c] != nil {
			at = append(at, i)
		}
	}
	for k := 1 + r.Intn(3); k > 0 && len(at) > 0; k-- {
		i := at[r.Intn(len(at))]
		if l := exotic[t[i]]; l != nil {
			t[i] = l[r.Intn(len(l))]
		}
	}
	return string(t)
}
