package main

import (
	"encoding/hex"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/bip39/wordlists"
	"github.com/mearaj/bips/util"
	"github.com/mearaj/bips/zzverif/core"
	"github.com/mearaj/bips/zzverif/ref"
	"github.com/mearaj/bips/zzverif/simrt"
)

type libSim struct{}

// shipped are the word lists as the code under test exports them.
func shipped(name string) []string {
	switch name {
	case "ChineseSimplified":
		return wordlists.ChineseSimplified
	case "ChineseTraditional":
		return wordlists.ChineseTraditional
	case "Czech":
		return wordlists.Czech
	case "English":
		return wordlists.English
	case "French":
		return wordlists.French
	case "Italian":
		return wordlists.Italian
	case "Japanese":
		return wordlists.Japanese
	case "Korean":
		return wordlists.Korean
	case "Portuguese":
		return wordlists.Portuguese
	case "Spanish":
		return wordlists.Spanish
	}
	return nil
}

var refLists = map[string]*ref.List{}

// refList resolves a list name: a shipped list, or rev:NAME, rot<k>:NAME,
// perm<seed>:NAME for the same words in another order.
func refList(name string) *ref.List {
	if l := refLists[name]; l != nil {
		return l
	}
	mod, base, ok := strings.Cut(name, ":")
	if !ok {
		mod, base = "", name
	}
	var l *ref.List
	for _, x := range ref.Lists {
		if x.Name == base {
			l = x
		}
	}
	if l == nil {
		panic("libsim: no word list " + name)
	}
	n := len(l.W)
	w := make([]string, n)
	switch {
	case mod == "":
		refLists[name] = l
		return l
	case mod == "rev":
		for i := range w {
			w[i] = l.W[n-1-i]
		}
	case strings.HasPrefix(mod, "rot"):
		k := atoi(mod[3:])
		for i := range w {
			w[i] = l.W[(i+k)%n]
		}
	case strings.HasPrefix(mod, "perm"):
		for i, j := range simrt.NewRand(uint64(atoi(mod[4:]))).Perm(n) {
			w[i] = l.W[j]
		}
	default:
		panic("libsim: no word list " + name)
	}
	refLists[name] = ref.NewList(name, w)
	return refLists[name]
}

// raceProps are the properties under which a data race is reported; C01 and
// C03 say nothing about sharing.
// patience is how long a call may wait while the randomness source works.
const patience = 2 * time.Second

func raceProp(p string) bool { return p != "C01" && p != "C03" }

var raceLogOff int64

// raceText returns what the race detector wrote since the last call.
func raceText() string {
	p := os.Getenv("VERIF_RACELOG")
	if p == "" {
		return ""
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", p, os.Getpid()))
	if err != nil || int64(len(b)) < raceLogOff {
		return ""
	}
	s := string(b[raceLogOff:])
	raceLogOff = int64(len(b))
	// The two accesses: keep the first frames of each.
	var out []string
	n := 0
	for _, l := range strings.Split(s, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "Read at"), strings.HasPrefix(t, "Write at"), strings.HasPrefix(t, "Previous"):
			f := strings.Fields(t)
			n = 0
			if len(f) > 2 && f[0] == "Previous" {
				out = append(out, "previous "+f[1]+" in")
			} else {
				out = append(out, strings.ToLower(f[0])+" in")
			}
		case strings.HasPrefix(t, "Goroutine"):
			n = 99
		case strings.HasSuffix(t, ")") && !strings.HasPrefix(t, "/") && n < 4 && len(out) > 0:
			n++
			out = append(out, strings.TrimPrefix(t, "github.com/mearaj/bips/"))
		case strings.HasPrefix(t, "====") && len(out) > 3:
			return strings.Join(out, " ")
		}
	}
	return strings.Join(out, " ")
}

func (libSim) Run(sc *core.Scenario) *core.Outcome {
	o := &core.Outcome{}
	simrt.Begin()
	simrt.SeedRandom(sc.Seed)
	before := fired
	defer func() {
		for i := range fired {
			for k := before[i]; k < fired[i]; k++ {
				n := ""
				if i < len(readFaultNames) {
					n = readFaultNames[i]
				} else {
					n = storageFaults[i-fStorage0]
				}
				o.Fault(n)
			}
			o.Shape = simrt.Mix2(o.Shape, uint64(fired[i]-before[i]))
		}
	}()
	switch sc.Mode {
	case "net":
		runNet(sc, o)
		return o
	case "coins":
		runCoins(sc, o)
		return o
	}
	start := func(seed uint64) bool {
		if err := simrt.Restart(seed); err != nil {
			o.Fail("start-up", "the library does not start: %v", err)
			return false
		}
		return true
	}
	if regBase == "" {
		if !start(1) {
			return o
		}
		regBase = regText()
		regBaseline = digest(regBase)
	}
	var ms uint64 = 1
	if len(sc.Phases) > 0 {
		ms = sc.Phases[0].MapSeed
	}
	simrt.SeedRandom(sc.Seed)
	if len(refLists) > 64 {
		refLists = map[string]*ref.List{}
	}
	if !start(ms) {
		return o
	}
	w := &world{sc: sc, disk: &disk{}}
	list := "English"
	var kept []*result // results the caller still holds
	var own []core.Task
	mine := &spot{} // of whoever calls between the phases
	var left []int  // background work after every repetition
	for pi := range sc.Phases {
		ph := &sc.Phases[pi]
		if ph.Same { // much later, the same once more
			c := *ph
			c.Tasks = own
			ph = &c
			simrt.Advance(400 * 24 * time.Hour)
		} else {
			own, left = ph.Tasks, nil
		}
		if pi > 0 && ph.Restart {
			sf("crash.restart")
			w.disk.crash(simrt.NewRand(simrt.Mix2(sc.Seed, uint64(pi)+0xd15c)))
			if !start(ph.MapSeed) {
				return o
			}
			list = "English"
			kept = nil
		}
		if ph.List != "" {
			list = ph.List
			var s *spot
			if sc.Spot {
				s = mine
			}
			words := wordList(list, ph.Scrib, s)
			bip39.SetWordList(words)
			if ph.Scrib {
				for i := range words {
					words[i] = "scribbled"
				}
			}
		}
		results := w.phase(o, pi, ph, &list)
		kept = append(kept, results...)
		if len(o.Viol) > 0 {
			return o
		}
		if sc.Prop == "C26" {
			if n := len(left); n > 0 && simrt.Background() <= left[n-1] {
				left = left[:0]
			}
			left = append(left, simrt.Background())
			if len(left) > 6 {
				o.Fail("left-behind", "after every repetition of the same calls more goroutines and timers are left: %v", left)
				return o
			}
		}
	}
	if sc.Prop == "C26" {
		return o
	}
	simrt.Collect()
	simrt.Gosched()
	// Whatever the caller still holds is as it was returned.
	for _, r := range kept {
		for _, h := range r.held {
			if c := h.changed(); c != "" {
				o.Fail("result-changed:"+h.what, "a value returned by %s changed later %s", h.what, c)
				return o
			}
		}
	}
	if sc.Prop == "C10" {
		if s := regWhole(); s != "" {
			o.Fail("registry", "%s", s)
		}
		if regDump() != regBaseline {
			o.Fail("registry-differs", "the registries differ from those of the first start: %s", regDiff())
		}
	}
	return o
}

// phase runs one phase and checks everything it did.
func (w *world) phase(o *core.Outcome, pi int, ph *core.Phase, list *string) []*result {
	sc := w.sc
	w.keys, w.gens, w.bufs, w.bufsW = nil, nil, nil, nil
	for _, t := range ph.Tasks {
		for _, op := range t.Ops {
			if op.K == "setlist" { // the callers only read the lists
				refList(op.S)
			}
		}
	}
	for _, k := range sc.Keys {
		kk := bip32.Key(ref.KeyFromHex(k))
		w.keys = append(w.keys, &kk)
		g := &util.Generator{}
		g.SetRootKey(kk)
		w.gens = append(w.gens, g)
	}
	for i, b := range sc.Bufs {
		raw, _ := hex.DecodeString(b)
		slack := 0
		if i < len(sc.Slack) {
			slack = sc.Slack[i]
		}
		full := make([]byte, len(raw)+slack)
		copy(full, raw)
		for j := len(raw); j < len(full); j++ {
			full[j] = canary
		}
		w.bufsW = append(w.bufsW, full)
		w.bufs = append(w.bufs, full[:len(raw)])
	}
	var results []*result
	var names []string
	var bodies []func(t *simrt.Task)
	w.tgens, w.trngs, w.spots = nil, nil, nil
	for ti := range ph.Tasks {
		t := &ph.Tasks[ti]
		w.tgens, w.trngs = append(w.tgens, &util.Generator{}), append(w.trngs, &util.KeyPathRange{})
		w.spots = append(w.spots, &spot{})
		var mine []*result
		for i := range t.Ops {
			r := &result{task: ti, ix: i, op: &t.Ops[i]}
			mine = append(mine, r)
			results = append(results, r)
		}
		names = append(names, fmt.Sprintf("caller%d", ti))
		bodies = append(bodies, func(t *simrt.Task) {
			for _, r := range mine {
				w.perform(t, r)
			}
		})
	}
	if len(bodies) == 0 {
		return nil
	}
	nops := 0
	for _, t := range ph.Tasks {
		nops += len(t.Ops)
	}
	cfg := simrt.Config{Spec: ph.Sched, MaxSteps: 3_000_000 + 30_000*nops, NumSites: core.NumSites}
	behind := ""
	cfg.StallHook = func(stalled, blocked []*simrt.Task) {
		for _, b := range blocked {
			c, _ := b.Local.(*opCtx)
			if c == nil || c.wantsR || b.Daemon || behind != "" {
				continue
			}
			if int(b.ID) < len(ph.Tasks) && b.Op >= 0 && b.Op < len(ph.Tasks[b.ID].Ops) {
				behind = fmt.Sprintf("%s (%s) waits until the stalled randomness source answers %s", b.Name, ph.Tasks[b.ID].Ops[b.Op].K, stalled[0].Name)
			}
		}
	}
	res := simrt.Run(cfg, names, bodies)
	o.Segs = append(o.Segs, res.Segs)
	o.SegsCut = o.SegsCut || res.SegsCut
	o.Steps += res.Steps
	o.Preempt += res.Stats.Preempt
	o.Shape = simrt.Mix2(o.Shape, res.Hash)
	o.Hash = simrt.Mix2(o.Hash, res.Hash)

	if res.Races > 0 && raceProp(sc.Prop) {
		o.Fail("race", "data race between concurrent calls: %s", raceText())
	}
	if behind != "" && sc.Prop == "C03" {
		o.Fail("blocked-by-stall", "%s", behind)
	}
	crashed := res.Aborted == "crash"
	switch {
	case res.Exited:
		o.Fail("process-exit", "the library ended the process with status %d %s", res.Exit, simrt.LastFatal)
	case crashed:
	case strings.HasPrefix(res.Aborted, "deadlock"):
		o.Fail("deadlock", "%s", res.Aborted)
	case res.Aborted != "":
		stuck := ""
		for _, r := range results {
			if r.killed {
				stuck += " " + r.op.K
			}
		}
		o.Fail("no-progress", "%s; operations that never returned:%s", res.Aborted, stuck)
	}
	for _, r := range results {
		if r.killed && res.Aborted == "" && !res.Exited {
			o.Fail("caller-ended:"+r.op.K, "%s(%s) ends the goroutine of its caller", r.op.K, opArgs(r.op))
		}
	}
	for _, p := range res.Panics {
		o.Fail("panic", "%s", p)
	}
	calm := sc.Prop == "C03"
	for _, r := range results {
		calm = calm && r.op.Plan == nil && r.op.K != "clock"
	}
	setter := map[int]bool{}
	for _, r := range results {
		if r.op.K == "setlist" {
			setter[r.task] = true
		}
	}
	unsettled := func(r *result) bool { return ph.Storm && !setter[r.task] && usesList(r.op.K) }
	start, last := *list, -1
	cur := start // as the caller that the result is of has set it
	for _, r := range results {
		if r.task != last {
			last, cur = r.task, start
		}
		if r.op.K == "setlist" && (r.done || r.killed) {
			cur = r.op.S
			*list = cur
		}
		if !r.done && !r.panicked {
			continue
		}
		o.Ops++
		o.Event("%d.%d.%d %s [%d,%d] %s", pi, r.task, r.ix, r.op.K, r.start, r.end, r.res)
		if r.panicked {
			o.Fail("panic:"+r.op.K, "%s(%s) panics: %s", r.op.K, opArgs(r.op), r.res)
			continue
		}
		if sc.Prop == "C26" { // what they return is for other properties to say
			continue
		}
		if calm && r.waited > patience {
			o.Fail("slow-recovery:"+r.op.K, "the source works, nobody is stalled in it, and %s(%s) takes %s of simulated time", r.op.K, opArgs(r.op), r.waited)
		}
		if unsettled(r) { // the list was set meanwhile: either list may count
			continue
		}
		if s := expect(sc, refList(cur), r); s != "" {
			o.Fail("wrong-result:"+r.op.K, "%s(%s): %s", r.op.K, opArgs(r.op), s)
		}
		for _, n := range r.ctx.notes {
			o.Fail("caller-memory:"+r.op.K, "%s: %s", r.op.K, n)
		}
	}
	if sc.Prop == "C26" {
		return nil
	}
	// Shared arguments are as they were.
	for i, k := range w.keys {
		if keyHex(*k) != sc.Keys[i] {
			o.Fail("shared-key-changed", "shared key %d changed from %s to %s", i+1, sc.Keys[i], keyHex(*k))
		}
		if keyHex(*w.gens[i].RootKey()) != sc.Keys[i] {
			o.Fail("generator-changed", "the root key of shared generator %d changed", i+1)
		}
	}
	for i, b := range w.bufsW {
		n := len(sc.Bufs[i]) / 2
		ok := hx(b[:n]) == sc.Bufs[i]
		for _, c := range b[n:] {
			ok = ok && c == canary
		}
		if !ok {
			o.Fail("shared-buffer-changed", "shared buffer %d (%s plus %d spare bytes) became %s", i+1, sc.Bufs[i], len(b)-n, hx(b))
		}
	}
	return results
}

func opArgs(op *core.Op) string {
	var a []string
	if op.Key > 0 {
		a = append(a, fmt.Sprintf("key %d", op.Key))
	}
	if op.Buf > 0 {
		a = append(a, fmt.Sprintf("shared buffer %d", op.Buf))
	}
	if op.S != "" {
		a = append(a, fmt.Sprintf("%q", core.Short(op.S)))
	}
	if op.S2 != "" {
		a = append(a, fmt.Sprintf("%q", core.Short(op.S2)))
	}
	if op.H != "" {
		a = append(a, "0x"+core.Short(op.H))
	}
	if op.I != 0 || op.J != 0 {
		a = append(a, fmt.Sprint(op.I, " ", op.J))
	}
	if op.N != 0 {
		a = append(a, fmt.Sprint(op.N))
	}
	if len(op.V) > 0 {
		a = append(a, fmt.Sprint(op.V))
	}
	return strings.Join(a, ", ")
}
