package main

import (
	"encoding/hex"
	"errors"
	"fmt"
	"hash/fnv"
	"image"
	"math"
	"strings"
	"time"

	"gioui.org/f32"
	"gioui.org/io/key"
	"gioui.org/io/pointer"
	"gioui.org/unit"

	"github.com/mearaj/bips/zzverif/core"
	"github.com/mearaj/bips/zzverif/guiapp"
	"github.com/mearaj/bips/zzverif/ref"
	"github.com/mearaj/bips/zzverif/simapp"
	"github.com/mearaj/bips/zzverif/simrt"
)

type guiSim struct{}

// big is a window in which everything is visible: the keys of a long path
// stand side by side, each with the whole path to it.
var big = image.Pt(bigW, 5000)

const bigW = 900000 // a Gio list takes no more than 1e6

const (
	fMnemonic = iota
	fPass
	fSeed
	fRoot
	fPath
)

var fieldNames = []string{"mnemonic", "passphrase", "seed", "root key", "path"}

type world struct {
	sc    *core.Scenario
	o     *core.Outcome
	s     *simapp.Session
	now   time.Time
	size  image.Point
	m     unit.Metric
	in    simapp.Insets
	vs    time.Duration // frame interval
	v     *view
	last  time.Time // of the last frame
	ins   int       // input events since the last frame
	touch bool      // buttons are touched, not clicked with the mouse: Gio loses clicks when both are used on one button
	late  int       // frames in which an edit of the mnemonic, seed or root key may still take effect
	dead  bool

	// emptied: the list of keys was empty after some input, and no key was
	// shown in detail since.
	emptied bool
	inputs  int
	// rootEdit: the root key field was edited since the window last showed
	// either a usable root key or no keys.
	rootEdit bool

	// edited is the field of the last edit and its expected text, while
	// nothing else happened since.
	edited int
	want   string

	// generation
	gen      bool
	genWords []int
	genN     int // clicks sent together
	genNew   int // frames in which the click may still take effect

	slide slideState

	closing bool
	wantErr bool
}

func english() *ref.List {
	for _, l := range ref.Lists {
		if l.Name == "English" {
			return l
		}
	}
	panic("guisim: no English word list")
}

func (guiSim) Run(sc *core.Scenario) *core.Outcome {
	o := &core.Outcome{}
	simrt.Begin()
	simrt.SeedRandom(sc.Seed)
	simrt.StepTime = 0 // a frame takes no time; the window system keeps the time
	if err := simrt.Restart(uint64(sc.Ints["mapseed"]) + 1); err != nil {
		o.Fail("start-up", "the tool does not start: %v", err)
		return o
	}
	src = &source{o: o}
	simrt.LastFatal = ""
	w := &world{sc: sc, o: o, s: simapp.Start(), now: simrt.Now(), edited: -1}
	w.size = image.Pt(max(sc.Ints["w"], 1), max(sc.Ints["h"], 1))
	sca := float32(max(sc.Ints["scale"], 25)) / 100
	w.m = unit.Metric{PxPerDp: sca, PxPerSp: sca * float32(max(sc.Ints["font"], 50)) / 100}
	w.vs = time.Duration(max(sc.Ints["vsync"], 1)) * time.Millisecond
	w.touch = sc.Ints["touch"] > 0
	sched := sc.Sched
	if sched.Kind == "" {
		sched.Kind = "seq"
	}
	start := w.now
	res := simrt.Run(simrt.Config{Spec: sched, MaxSteps: 60_000_000, NumSites: core.NumSites}, []string{"main", "window"}, []func(*simrt.Task){
		func(*simrt.Task) { guiapp.ZZMain() },
		func(*simrt.Task) { w.drive() },
	})
	o.Segs = append(o.Segs, res.Segs)
	o.SegsCut = res.SegsCut
	o.Steps += res.Steps
	o.Preempt += res.Stats.Preempt
	o.SimTime = w.now.Sub(start)
	o.Hash = simrt.Mix2(o.Hash, res.Hash)
	o.Shape = simrt.Mix2(o.Shape, o.Hash)
	for _, p := range res.Panics {
		o.Viol = append([]core.Violation{{Class: "panic", Detail: p}}, o.Viol...)
	}
	switch {
	case len(res.Panics) > 0:
	case w.closing && !res.Exited:
		o.Fail("does-not-end", "the window was closed but the program does not end: %s", res.Aborted)
	case w.closing && w.wantErr && res.Exit == 0:
		o.Fail("exit-status", "the window system reported an error and the program exits with status 0")
	case w.closing && !w.wantErr && res.Exit != 0:
		o.Fail("exit-status", "the window was closed normally and the program exits with status %d %s", res.Exit, simrt.LastFatal)
	case !w.closing && res.Exited:
		o.Fail("unexpected-exit", "the program exits with status %d while its window is open: %s", res.Exit, simrt.LastFatal)
	case strings.HasPrefix(res.Aborted, "deadlock"):
		o.Fail("stuck", "the program stops handling its window: %s", res.Aborted)
	case res.Aborted != "" && res.Aborted != "crash" && res.Aborted != "exit":
		o.Fail("no-progress", "the program does not come back to its event loop: %s", res.Aborted)
	}
	o.Event("end exited=%v status=%d", res.Exited, res.Exit)
	return o
}

// drive is the window system: it plays the scenario's steps.
func (w *world) drive() {
	first := true
	for i := range w.sc.Steps {
		st := &w.sc.Steps[i]
		if first && st.K != "close" {
			w.open()
			first = false
		}
		if w.dead {
			break
		}
		w.o.Ops++
		w.o.Event("%8.1f ms  %s", float64(w.now.Sub(simrt.Epoch()))/1e6, stepText(st))
		w.o.Shape = simrt.Mix2(simrt.MixS(w.o.Shape, st.K), uint64(st.A)<<20^uint64(st.B)<<8^uint64(st.C))
		w.step(i, st)
		if w.dead || len(w.o.Viol) > 0 {
			break
		}
	}
	if w.closing {
		simrt.Block("the program to end")
	}
	simrt.Crash()
}

func stepText(st *core.Step) string {
	s := st.K
	switch st.K {
	case "edit":
		s += fmt.Sprintf(" %s mode %d frames %d", fieldNames[st.A%5], st.B, st.C)
	default:
		if st.A != 0 || st.B != 0 || st.C != 0 || st.D != 0 {
			s += fmt.Sprintf(" %d %d %d %d", st.A, st.B, st.C, st.D)
		}
	}
	if st.S != "" {
		s += fmt.Sprintf(" %q", core.Short(st.S))
	}
	if st.F != "" {
		s += " fault=" + st.F
	}
	if st.MS != 0 {
		s += fmt.Sprintf(" %g ms", st.MS)
	}
	return s
}

func (w *world) open() {
	w.s.Send(simapp.ConfigEvent{Config: simapp.Config{Size: w.size}})
	w.s.Send(simapp.StageEvent{Stage: simapp.StageRunning})
	w.s.Wake()
	w.frame(0)
	w.frame(w.vs)
}

// advance lets window time pass.
func (w *world) advance(d time.Duration) {
	if d > 0 {
		w.now = w.now.Add(d)
		simrt.Advance(d)
	}
}

// frame draws a frame after d has passed.
func (w *world) frame(d time.Duration) {
	if w.dead {
		return
	}
	w.advance(d)
	if !w.last.IsZero() && w.now.Equal(w.last) {
		w.o.Fault("frame.repeated_timestamp")
	}
	w.last = w.now
	if w.ins > 3 {
		w.o.Fault("frame.batched_input")
	}
	w.ins = 0
	w.late = max(w.late-1, 0)
	if !w.s.Frame(w.now, w.size, w.m, w.in) {
		w.o.Fail("frame-unanswered", "a frame at %v was never drawn", w.now.Sub(simrt.Epoch()))
		w.dead = true
		return
	}
	w.v = parse(w.s.Semantics)
	if w.inputs > 0 && len(w.v.tabs) == 0 {
		w.emptied = true
	}
	if w.genNew > 0 {
		w.genNew--
		w.genWords = append(w.genWords, w.selectedWords())
	}
	h := fnv.New64a()
	h.Write([]byte(w.v.String()))
	w.o.Hash = simrt.Mix2(w.o.Hash, h.Sum64())
	if core.KeepLog {
		w.o.Log = append(w.o.Log, fmt.Sprintf("%8.1f ms  frame %s", float64(w.now.Sub(simrt.Epoch()))/1e6, w.v))
	}
	w.watch()
	if len(w.o.Viol) > 0 {
		w.dead = true
	}
}

// pump lets d of window time pass, with frames when the program wants them.
// It returns early when the program is idle, unless full is set.
func (w *world) pump(d time.Duration, full bool) {
	end := w.now.Add(d)
	for !w.dead {
		at, ok := w.s.Next()
		if !ok {
			simrt.Stall(0) // background work of the program, if any
			if at, ok = w.s.Next(); !ok {
				if full {
					w.advance(end.Sub(w.now))
				}
				return
			}
		}
		next := w.last.Add(w.vs)
		if at.After(next) {
			next = at
		}
		if next.Before(w.now) {
			next = w.now
		}
		if next.After(end) {
			w.advance(end.Sub(w.now))
			return
		}
		w.frame(next.Sub(w.now))
	}
}

// settle lets everything that is under way finish.
func (w *world) settle() {
	if w.sc.Prop != "C17" && w.vs < 40*time.Millisecond { // spare frames that nothing looks at
		defer func(d time.Duration) { w.vs = d }(w.vs)
		w.vs = 40 * time.Millisecond
	}
	w.pump(750*time.Millisecond, false)
	w.s.Wake()
	w.frame(w.vs)
	w.pump(450*time.Millisecond, false)
}

// ---- input ----

func (w *world) queue(f func()) {
	w.ins++
	w.inputs++
	f()
}

// press clicks n times. The mouse button is held down for a frame, as by a
// hand: Gio loses a release that arrives in the same frame as a press that
// moves the focus. A touch moves no focus and may be over within a frame.
func (w *world) press(p image.Point, touch bool, n int, held bool) {
	pos := f32.Pt(float32(p.X), float32(p.Y))
	for i := 0; i < n && !w.dead; i++ {
		t := w.now.Sub(simrt.Epoch())
		e := pointer.Event{Kind: pointer.Press, Source: pointer.Mouse, Buttons: pointer.ButtonPrimary, Position: pos, Time: t}
		if touch {
			e.Source, e.Buttons, e.PointerID = pointer.Touch, 0, 1
		}
		w.queue(func() { w.s.Queue(e) })
		if held {
			w.frame(w.vs)
		}
		e.Kind, e.Buttons, e.Time = pointer.Release, 0, w.now.Sub(simrt.Epoch())
		w.queue(func() { w.s.Queue(e) })
	}
}

// ready draws what was typed before a press moves the focus: Gio hands all
// text of one frame to the last field in focus.
func (w *world) ready(mouse bool) {
	if mouse && w.ins > 0 {
		w.frame(w.vs)
	}
}

// hit is a point inside r that is inside the window, if there is one.
func (w *world) hit(r image.Rectangle) (image.Point, bool) {
	// Labels report open-ended bounds; buttons and editors do not. The
	// bounds are not clipped to what is visible inside the 32 dp inset.
	b := image.Rectangle{Max: w.size}
	r = r.Intersect(b.Inset(w.m.Dp(32)))
	if r.Dx() < 2 || r.Dy() < 2 {
		return image.Point{}, false
	}
	return r.Min.Add(image.Pt(r.Dx()/2, r.Dy()/2)), true
}

// hitTab is a point of a tab between the arrows: the list scrolls.
func (w *world) hitTab(r image.Rectangle) (image.Point, bool) {
	if a := w.v.arrows; len(a) > 1 {
		r = r.Intersect(image.Rect(a[0].Max.X, r.Min.Y, a[len(a)-1].Min.X, r.Max.Y))
	}
	return w.hit(r)
}

func (w *world) keyPress(name key.Name, m key.Modifiers) {
	w.queue(func() { w.s.Queue(key.Event{Name: name, Modifiers: m, State: key.Press}) })
	w.queue(func() { w.s.Queue(key.Event{Name: name, Modifiers: m, State: key.Release}) })
}

// focus clicks into a field.
func (w *world) focus(i int) bool {
	w.ready(true)
	if i >= len(w.v.editors) {
		return false
	}
	p, ok := w.hit(w.v.editors[i])
	if !ok {
		return false
	}
	w.press(p, false, 1, true)
	w.frame(w.vs)
	return !w.dead
}

const all = 1 << 24

func (w *world) selectAll() { w.queue(func() { w.s.Select(key.Range{Start: 0, End: all}) }) }

// read gives the text of a field as a user would get it: by copying it.
func (w *world) read(i int) (string, bool) {
	if !w.focus(i) {
		return "", false
	}
	clip := w.s.Clipboard
	w.s.Copied = nil
	w.keyPress("A", key.ModShortcut)
	w.frame(w.vs)
	w.keyPress("C", key.ModShortcut)
	w.frame(w.vs)
	w.s.Clipboard = clip
	if w.s.Copied == nil {
		return "", !w.dead
	}
	return *w.s.Copied, !w.dead
}

func (w *world) sub(c int) {
	if c > 0 {
		w.frame(w.vs)
	}
}

// edit plays an edit of a field.
func (w *world) edit(st *core.Step) {
	f := st.A % 5
	if f != fPass && f != fPath {
		w.gen = false
	}
	w.edited = -1
	w.rootEdit = w.rootEdit || f == fRoot
	if !w.focus(f) {
		return
	}
	defer func() {
		w.slide.edits = 4
		if f != fPass && f != fPath || st.B == 7 {
			w.late = 3
		}
	}()
	w.slide.edits = 4
	fr := st.C
	type1 := func(s string) { w.queue(func() { w.s.Insert(s) }) }
	switch st.B {
	case 0: // select all, type
		w.selectAll()
		w.sub(fr)
		type1(st.S)
		w.edited, w.want = f, st.S
	case 1: // select all, paste
		w.selectAll()
		w.sub(fr)
		w.s.Clipboard = st.S
		w.keyPress("V", key.ModShortcut)
		w.sub(fr)
	case 2: // type at the end
		w.queue(func() { w.s.Select(key.Range{Start: all, End: all}) })
		w.frame(w.vs)
		type1(st.S)
	case 3: // backspaces
		w.queue(func() { w.s.Select(key.Range{Start: all, End: all}) })
		w.sub(fr)
		for i := 0; i < max(st.D, 1); i++ {
			w.keyPress(key.NameDeleteBackward, 0)
			w.sub(fr)
		}
	case 4: // clear
		w.selectAll()
		w.sub(fr)
		w.keyPress(key.NameDeleteBackward, 0)
		w.edited, w.want = f, ""
	case 5: // undo, redo
		w.keyPress("Z", key.ModShortcut)
		w.sub(fr)
		if st.D > 0 {
			w.keyPress("Z", key.ModShortcut|key.ModShift)
		}
	case 6: // replace, character by character
		w.selectAll()
		w.sub(fr)
		w.keyPress(key.NameDeleteBackward, 0)
		w.frame(w.vs)
		n := 0
		for _, r := range st.S {
			type1(string(r))
			if n++; n%max(st.D, 1) == 0 {
				w.frame(w.vs)
			}
		}
		w.edited, w.want = f, st.S
	case 7: // cut, paste into another field
		w.keyPress("A", key.ModShortcut)
		w.sub(fr)
		w.keyPress("X", key.ModShortcut)
		w.frame(w.vs)
		if st.D > 0 {
			w.frame(w.vs)
			w.rootEdit = w.rootEdit || (f+st.D)%5 == fRoot
			if w.focus((f + st.D) % 5) {
				w.keyPress("V", key.ModShortcut)
				w.gen = false
			}
		}
	case 8: // type in the middle
		w.queue(func() { w.s.Select(key.Range{Start: st.D, End: st.D}) })
		w.frame(w.vs)
		type1(st.S)
	case 9: // select all, type in two parts with a frame between
		w.selectAll()
		w.sub(fr)
		r := []rune(st.S)
		k := len(r) / 2
		type1(string(r[:k]))
		w.frame(w.vs)
		w.frame(w.vs)
		type1(string(r[k:]))
		w.edited, w.want = f, st.S
	}
	if fr > 0 {
		w.frame(w.vs)
	}
}

func words(label string) int {
	n := 0
	fmt.Sscanf(label, "%d words", &n)
	return n
}

func (w *world) selectedWords() int {
	for _, r := range w.v.radios {
		if r.sel {
			return words(r.label)
		}
	}
	return 0
}

// target finds the rectangle of a click target.
func (w *world) target(st *core.Step) (image.Point, bool) {
	v := w.v
	none := image.Point{}
	switch st.S {
	case "gen":
		if v.hasGen {
			return w.hit(v.gen)
		}
	case "radio":
		if len(v.radios) > 0 {
			return w.hit(v.radios[st.A%len(v.radios)].r)
		}
	case "tab":
		if len(v.tabs) > 0 {
			return w.hitTab(v.tabs[st.A%len(v.tabs)].r)
		}
	case "left":
		if len(v.arrows) > 0 {
			return w.hit(v.arrows[0])
		}
	case "right":
		if len(v.arrows) > 1 {
			return w.hit(v.arrows[len(v.arrows)-1])
		}
	case "blank":
		return image.Pt(2, 2), true
	}
	return none, false
}

func (w *world) click(i int, st *core.Step) {
	w.ready(!w.touch)
	p, ok := w.target(st)
	if !ok {
		return
	}
	switch st.S {
	case "gen":
		for w.genNew > 0 && !w.dead { // an earlier click is still on its way
			w.frame(w.vs)
		}
		for !w.touch && w.late > 0 && !w.dead { // so is an earlier edit
			w.frame(w.vs)
		}
		src.begin(st.P, simrt.Mix2(w.sc.Seed, uint64(i)+77))
		w.gen = w.late == 0
		w.genN = max(st.B, 1)
		w.genWords = append(w.genWords[:0], w.selectedWords())
		w.genNew = 100
		w.slide.edits = 100
		w.edited = -1
	default:
		w.slide.click(w, st)
	}
	w.press(p, w.touch, max(st.B, 1), !w.touch)
	if st.S == "gen" {
		w.genNew = w.genN
		w.slide.edits = w.genN + 3
	} else {
		w.slide.click(w, st)
	}
	for k := 0; k < st.D; k++ {
		w.frame(w.vs)
	}
}

var keyNames = []key.Name{key.NameTab, key.NameReturn, key.NameEnter, key.NameSpace, key.NameEscape, key.NameLeftArrow, key.NameRightArrow,
	key.NameUpArrow, key.NameDownArrow, key.NameHome, key.NameEnd, key.NamePageUp, key.NamePageDown, key.NameDeleteBackward,
	key.NameDeleteForward, "A", "C", "V", "X", "Z", key.NameF1, key.NameBack, "B", "1", "ü", ""}

var keyMods = []key.Modifiers{0, key.ModShift, key.ModShortcut, key.ModShortcut | key.ModShift, key.ModShortcutAlt, key.ModAlt, key.ModSuper}

func ms(f float64) time.Duration { return time.Duration(f * float64(time.Millisecond)) }

func (w *world) step(i int, st *core.Step) {
	switch st.K {
	case "edit":
		w.edit(st)
	case "click":
		w.click(i, st)
	case "frame":
		d := ms(st.MS)
		if d > 250*time.Millisecond {
			w.o.Fault("frame.stalled")
		}
		for k := 0; k < max(st.A, 1) && !w.dead; k++ {
			w.s.Wake()
			w.frame(d)
		}
	case "run":
		if st.A > 0 {
			old := w.vs
			w.vs = time.Duration(st.A) * time.Millisecond
			w.pump(ms(st.MS), true)
			w.vs = old
		} else {
			w.pump(ms(st.MS), true)
		}
	case "jump":
		w.o.Fault("clock.jump_forward")
		w.advance(ms(st.MS))
	case "idle":
		w.idle(st)
	case "resize":
		w.o.Fault("window.resize")
		w.size = image.Pt(max(st.A, 1), max(st.B, 1))
		if st.C > 0 {
			w.m.PxPerDp = float32(st.C) / 100
			w.m.PxPerSp = w.m.PxPerDp
		}
		if st.D > 0 {
			w.in = simapp.Insets{Top: unit.Dp(st.D), Left: unit.Dp(st.D / 2)}
		}
		w.s.Wake()
		if w.sc.Prop != "C19" { // a user aims at what is drawn after the resize
			w.frame(w.vs)
			w.frame(w.vs)
		}
	case "key":
		w.rootEdit = true
		n := keyNames[st.A%len(keyNames)]
		m := keyMods[st.B%len(keyMods)]
		if st.C > 0 { // press without release
			w.queue(func() { w.s.Queue(key.Event{Name: n, Modifiers: m, State: key.Press}) })
		} else {
			w.keyPress(n, m)
		}
		w.gen, w.edited = false, -1
	case "ptr":
		w.pointer(st)
		w.gen, w.edited = false, -1
	case "text":
		w.rootEdit = true
		w.queue(func() { w.s.Insert(st.S) })
		w.gen, w.edited = false, -1
	case "ime":
		w.rootEdit = true
		switch st.C % 3 {
		case 0:
			w.queue(func() { w.s.Replace(key.Range{Start: st.A, End: st.A + st.B}, st.S) })
		case 1:
			w.queue(func() { w.s.Select(key.Range{Start: st.A, End: st.A + st.B}) })
		case 2:
			w.queue(func() { w.s.Snippet(key.Range{Start: st.A, End: st.A + st.B}) })
		}
		w.gen, w.edited = false, -1
	case "clip":
		w.s.Clipboard = st.S
		w.s.ClipBroken = st.F == "broken"
		if st.F == "broken" {
			w.o.Fault("clipboard.broken")
		}
		w.s.PasteHeld = st.F == "delayed"
		if w.s.PasteHeld {
			w.o.Fault("clipboard.delayed")
		}
	case "paste":
		if w.s.PasteWaiting() {
			w.queue(w.s.Paste)
		}
	case "stage":
		w.o.Fault("window.stage_change")
		w.s.Send(simapp.StageEvent{Stage: simapp.Stage(st.A % 3)})
		w.s.Ready()
	case "clickfocus":
		w.queue(w.s.ClickFocus)
	case "check":
		w.check(st.C)
	case "nav":
		w.nav(st)
	case "close":
		w.closing = true
		if st.F != "" {
			w.wantErr = true
			w.o.Fault("window.error_close")
			w.s.Destroy(errors.New(st.F))
		} else {
			w.o.Fault("window.close")
			w.s.Destroy(nil)
		}
		w.dead = true
	}
}

func (w *world) pointer(st *core.Step) {
	pos := f32.Pt(float32(w.size.X)*float32(st.B)/1000, float32(w.size.Y)*float32(st.C)/1000)
	e := pointer.Event{Source: pointer.Mouse, Position: pos, Time: w.now.Sub(simrt.Epoch())}
	if st.D > 0 {
		e.Source = pointer.Touch
		e.PointerID = pointer.ID(st.D % 3)
	}
	switch st.A % 6 {
	case 0:
		e.Kind = pointer.Move
	case 1:
		e.Kind, e.Buttons = pointer.Press, pointer.ButtonPrimary
	case 2:
		e.Kind = pointer.Release
	case 3:
		// The window system never sends Drag itself; it sends Move with buttons held.
		e.Kind, e.Buttons = pointer.Move, pointer.ButtonPrimary
	case 4:
		e.Kind = pointer.Scroll
		e.Scroll = f32.Pt(float32(st.D%7-3)*20, float32(st.MS))
	case 5:
		e.Kind = pointer.Cancel
		e.Position = f32.Point{}
	}
	w.queue(func() { w.s.Queue(e) })
}

// ---- checks of a settled window ----

// shown is everything the settled window displays.
type shown struct {
	f [5]string
	v *view
}

func (w *world) check(walk int) {
	size, in, m := w.size, w.in, w.m
	w.settle()
	if size != big {
		w.size, w.in = big, simapp.Insets{}
		w.m = unit.Metric{PxPerDp: 1, PxPerSp: 1}
		w.s.Wake()
		w.frame(w.vs)
		w.settle()
	}
	if w.dead {
		return
	}
	d := &shown{v: w.v}
	if len(w.v.editors) != 5 {
		w.o.Fail("fields", "the window shows %d text fields instead of 5", len(w.v.editors))
		return
	}
	before := w.v
	for i := range d.f {
		t, ok := w.read(i)
		if !ok {
			if !w.dead {
				w.o.Fail("fields", "the %s field cannot be used", fieldNames[i])
			}
			return
		}
		d.f[i] = t
	}
	w.o.Event("shown %q %s", d.f, before)
	if a, b := fmt.Sprint(before.tabLabels(), before.panels), fmt.Sprint(w.v.tabLabels(), w.v.panels); a != b {
		w.o.Fail("not-settled", "the output changes without an edit, from %s to %s", before, w.v)
		return
	}
	w.checkChain(d)
	w.checkOne(d.v)
	if len(w.o.Viol) == 0 && walk > 0 {
		w.walk(d)
	}
	if len(w.o.Viol) == 0 && w.gen && w.sc.Prop == "C18" {
		w.checkGen(d)
	}
	if len(w.o.Viol) == 0 && w.edited >= 0 && w.sc.Prop == "C15" && d.f[w.edited] != w.want {
		w.o.Fail("edit-lost", "the %s field was edited to %q and shows %q", fieldNames[w.edited], w.want, d.f[w.edited])
	}
	w.edited = -1
	if w.dead || len(w.o.Viol) > 0 {
		w.dead = true
		return
	}
	core.Probe(fmt.Sprintf("settled.keys_%d", min(len(before.tabs), 5)))
	if size != big {
		w.size, w.in, w.m = size, in, m
		w.s.Wake()
		w.frame(w.vs)
	}
}

func (w *world) chainProp() bool { return w.sc.Prop == "C15" || w.sc.Prop == "C18" }

// usable reports the root key a text stands for.
func usable(s string) (ref.Key, bool) {
	k, err := ref.B58Deserialize(s)
	if err != nil || !k.Private() || k.Depth() != 0 || !k.Usable() || !k.VersionKnown() {
		return k, false
	}
	return k, true
}

// checkChain compares what is shown downstream of each field with what
// follows from the field.
func (w *world) checkChain(d *shown) {
	if !w.chainProp() {
		return
	}
	mn, pass, seed, root, path := d.f[0], d.f[1], d.f[2], d.f[3], d.f[4]
	o := w.o
	if mn != "" {
		s, err := english().SeedOf(mn, pass)
		if err == nil {
			if want := hex.EncodeToString(s); seed != want {
				o.Fail("seed", "the shown mnemonic %q with passphrase %q has the seed %s, shown is %q", mn, pass, want, seed)
				return
			}
			core.Probe("chain.mnemonic_valid")
		} else if seed != "" || root != "" {
			o.Fail("seed", "the shown mnemonic %q is invalid, shown with it are the seed %q and the root key %q", core.Short(mn), seed, root)
			return
		} else {
			core.Probe("chain.mnemonic_invalid")
		}
	}
	if seed != "" {
		k, err := ref.RootFromSeedHex(seed)
		if err == nil {
			if want := k.B58(); root != want {
				o.Fail("root-key", "the shown seed %q has the root key %s, shown is %q", seed, want, root)
				return
			}
			core.Probe("chain.seed_valid")
		} else if root != "" {
			o.Fail("root-key", "the shown seed %q is invalid, shown with it is the root key %q", core.Short(seed), root)
			return
		} else {
			core.Probe("chain.seed_invalid")
		}
	}
	k, ok := usable(root)
	if !ok {
		if len(d.v.tabs) == 0 {
			w.rootEdit = false
		}
		if len(d.v.tabs) > 0 && w.staleKeys(d) && core.IsKnown("stale-keys-after-unreadable-root") {
			return
		}
		if len(d.v.tabs) > 0 || len(d.v.panels) > 0 {
			o.Fail("keys-without-root", "the shown root key %q is not a usable private master key, shown are %s", core.Short(root), d.v)
		}
		core.Probe("chain.root_unusable")
		return
	}
	w.rootEdit = false
	want, err := ref.Derive(k, path)
	if _, perr := ref.ParsePath(path); err != nil && perr == nil {
		// The path is well formed but leads deeper than a key can count:
		// there is no such key, so nothing is listed, or only the root.
		core.Probe("chain.path_too_deep")
		if len(d.v.tabs) == 0 {
			if len(d.v.panels) > 0 {
				o.Fail("key-list", "path %q is too deep and nothing is listed, shown are %s", core.Short(path), d.v)
			}
			return
		}
	}
	if err != nil {
		want, _ = ref.Derive(k, "m")
		core.Probe("chain.path_invalid")
	} else {
		core.Probe("chain.path_valid")
	}
	var labels []string
	for _, p := range want {
		labels = append(labels, p.Path)
	}
	if core.Join(labels) != core.Join(d.v.tabLabels()) && !(d.v.overflows() && run(labels, d.v.tabLabels())) {
		o.Fail("key-list", "root key %s and path %q give the keys %q, listed are %q", root, path, labels, d.v.tabLabels())
		return
	}
	for _, p := range d.v.panels {
		w.checkPanel(p, want)
	}
}

// staleKeys: the user put an unreadable text into the root key field and the
// window still lists keys along the shown path.
func (w *world) staleKeys(d *shown) bool {
	if _, err := ref.B58Deserialize(d.f[fRoot]); err == nil || !w.rootEdit || d.f[fMnemonic] != "" || d.f[fSeed] != "" {
		return false
	}
	any, _ := ref.RootFromSeedHex("00000000000000000000000000000000")
	want, err := ref.Derive(any, d.f[fPath])
	if err != nil {
		want, _ = ref.Derive(any, "m")
	}
	var labels []string
	for _, p := range want {
		labels = append(labels, p.Path)
	}
	return core.Join(labels) == core.Join(d.v.tabLabels())
}

func (w *world) checkPanel(p panel, want []ref.PathKey) {
	for _, k := range want {
		if k.Path != p.path() {
			continue
		}
		n := k.Key.Neuter()
		exp := []string{k.Path, k.Key.B58(), n.B58(), k.Key.PrivHex(), n.PubHex(), k.Key.EthAddr()}
		if core.Join(exp) != core.Join(p.lines) {
			w.o.Fail("key-details", "the key at %s is %q, shown is %q", k.Path, exp, p.lines)
		}
		return
	}
	w.o.Fail("key-details", "the key at %s is shown but does not follow from the inputs", p.path())
}

// checkOne: exactly one of the listed keys is shown.
func (w *world) checkOne(v *view) {
	if w.sc.Prop != "C16" && w.sc.Prop != "C17" && w.sc.Prop != "C15" {
		return
	}
	if w.sc.Prop == "C15" {
		return // C16 decides
	}
	switch {
	case len(v.tabs) == 0 && w.size != big && len(v.arrows) > 0:
	case len(v.tabs) == 0:
		if len(v.panels) > 0 || len(v.stray) > 0 {
			w.o.Fail("shown-without-list", "no key is listed, shown are %s %q", v, v.stray)
		}
	case len(v.panels) == 0 && w.emptied && core.IsKnown("none-shown-after-empty-list"):
	case len(v.panels) != 1:
		w.o.Fail("not-one-shown", "%d keys are listed and %d are shown in detail: %s", len(v.tabs), len(v.panels), v)
	default:
		w.emptied = false
		for _, t := range v.tabs {
			if t.label == v.panels[0].path() {
				return
			}
		}
		if w.size != big {
			return // the list may be scrolled
		}
		w.o.Fail("shown-not-listed", "the shown key %s is not listed: %s", v.panels[0].path(), v)
	}
}

// walk shows every listed key in turn.
func (w *world) walk(d *shown) {
	k, ok := usable(d.f[fRoot])
	if !ok {
		return
	}
	want, err := ref.Derive(k, d.f[fPath])
	if err != nil {
		want, _ = ref.Derive(k, "m")
	}
	n := len(w.v.tabs)
	for i := 0; i < n && !w.dead; i++ {
		if n > 12 && i > 2 && i < n-3 && i%(n/4) != 0 {
			continue // a long list: its ends and some in between
		}
		if i >= len(w.v.tabs) {
			return
		}
		p, ok := w.hitTab(w.v.tabs[i].r)
		if !ok {
			continue
		}
		lab := w.v.tabs[i].label
		w.emptied = false
		w.slide.click(w, nil)
		w.press(p, w.touch, 1, !w.touch)
		w.slide.click(w, nil)
		w.frame(w.vs)
		w.pump(400*time.Millisecond, false)
		if w.dead {
			return
		}
		if w.sc.Prop == "C16" {
			if len(w.v.panels) != 1 || w.v.panels[0].path() != lab {
				w.o.Fail("choice", "the listed key %s was chosen, shown is %s", lab, w.v)
				return
			}
		}
		if w.chainProp() {
			for _, p := range w.v.panels {
				if w.checkPanel(p, want); len(w.o.Viol) > 0 {
					return
				}
			}
		}
	}
}

// checkGen: the mnemonic encodes the bytes delivered for the click.
func (w *world) checkGen(d *shown) {
	mn := d.f[fMnemonic]
	if mn == "" {
		if !src.failed && src.reads > 0 {
			w.o.Fail("nothing-generated", "the randomness source answered, no mnemonic is shown")
		}
		if src.reads == 0 {
			w.o.Fail("nothing-generated", "a click on generate did not ask for randomness")
		}
		if d.f[fSeed] != "" || d.f[fRoot] != "" || len(d.v.tabs) > 0 || len(d.v.panels) > 0 {
			w.o.Fail("keys-after-failure", "generation failed, shown are %q and %s", d.f, d.v)
		}
		core.Probe("gen.failed_shows_nothing")
		return
	}
	ent, err := english().Entropy(mn)
	if err != nil {
		w.o.Fail("invalid-mnemonic", "the generated mnemonic %q is invalid", mn)
		return
	}
	if src.lastBad {
		w.o.Fail("mnemonic-after-failure", "the randomness source failed for this click, shown is %q; delivered were %x", mn, src.deliv)
		return
	}
	n := len(ent)
	ok := false
	for _, c := range w.genWords {
		ok = ok || c*4/3 == n
	}
	if !ok {
		w.o.Fail("word-count", "the selected word counts were %v, generated are %d words", w.genWords, n*3/4)
		return
	}
	if src.failed {
		// A retry may have read more than once; what is shown is still fresh.
		if !strings.HasSuffix(string(src.deliv), string(ent)) {
			w.o.Fail("not-fresh", "the mnemonic encodes %x, the source delivered %x", ent, src.deliv)
		}
		return
	}
	if k := len(src.deliv) / n; len(src.deliv) != k*n || k < 1 || k > w.genN || string(src.deliv[(k-1)*n:]) != string(ent) {
		w.o.Fail("not-fresh", "the mnemonic encodes %x, the source delivered %x for this click", ent, src.deliv)
		return
	}
	core.Probe(fmt.Sprintf("gen.words_%d", n*3/4))
}

// nav makes one choice in a settled window and checks where it leads.
func (w *world) nav(st *core.Step) {
	w.settle()
	if w.dead {
		return
	}
	v := w.v
	if w.checkOne(v); len(w.o.Viol) > 0 || len(v.tabs) == 0 {
		return
	}
	full := w.size == big
	cur := -1
	for i, t := range v.tabs {
		if len(v.panels) == 1 && t.label == v.panels[0].path() {
			cur = i
		}
	}
	p, ok := w.target(st)
	if !ok {
		return
	}
	w.slide.click(w, st)
	w.press(p, w.touch, 1, !w.touch)
	w.slide.click(w, st)
	w.frame(w.vs)
	w.settle()
	if w.dead {
		return
	}
	w.emptied = w.emptied && st.S != "tab"
	if w.checkOne(w.v); len(w.o.Viol) > 0 || w.sc.Prop != "C16" || len(w.v.panels) == 0 {
		return
	}
	got := w.v.panels[0].path()
	switch st.S {
	case "tab":
		if want := v.tabs[st.A%len(v.tabs)].label; got != want {
			w.o.Fail("choice", "the listed key %s was chosen, shown is %s", want, got)
		}
		core.Probe("nav.tab")
	case "left", "right":
		if cur < 0 || !full {
			return
		}
		to := cur + 1
		if st.S == "left" {
			to = cur - 1
		}
		to = min(max(to, 0), len(v.tabs)-1)
		if want := v.tabs[to].label; got != want {
			w.o.Fail("step", "%s from %s leads to %s instead of %s", map[string]string{"left": "previous", "right": "next"}[st.S], v.tabs[cur].label, got, want)
		}
		if to == cur {
			core.Probe("nav.at_end")
		} else {
			core.Probe("nav.step")
		}
	}
}

// idle takes the focus away and waits until the window asks for no frames.
func (w *world) idle(st *core.Step) {
	// Choosing something takes the focus away from any text field.
	targets := []string{"right", "radio"}
	if st.A > 0 {
		targets = []string{"radio", "right"}
	}
	for w.slide.edits > 0 && !w.dead { // an edit may take the button away
		w.frame(w.vs)
	}
	away := false
	for _, s := range targets {
		t := &core.Step{K: "click", S: s}
		if p, ok := w.target(t); ok {
			w.slide.click(w, t)
			w.press(p, false, 1, true)
			w.slide.click(w, t)
			away = true
			break
		}
	}
	w.gen, w.edited = false, -1
	w.frame(w.vs)
	w.pump(5*time.Second, true)
	if w.dead || w.sc.Prop != "C17" || !away {
		return
	}
	if at, ok := w.s.Next(); ok {
		w.o.Fail("never-idle", "5 s after the last input, with no focused field, the window still asks for a frame (at %v, now %v)", at.Sub(simrt.Epoch()), w.now.Sub(simrt.Epoch()))
	}
	core.Probe("idle.reached")
}

// ---- slide monitor ----

// slideState follows the detail panel from frame to frame.
type slideState struct {
	pending int    // frames in which a choice may still take effect
	twice   int    // frames in which two choices may take effect together
	edits   int    // frames in which an edit may still take effect
	prev    string // path shown last
	moving  bool
	t0      time.Time
	absX    int
	loose   time.Time // until then a slide that cannot be told apart from an edit may be under way
}

func (s *slideState) click(w *world, st *core.Step) {
	n := 1
	if st != nil {
		n = max(n, st.B)
	}
	if s.pending > 0 {
		s.twice = n
	}
	s.pending = n
}

func (w *world) watch() {
	s := &w.slide
	pend, edits, twice := s.pending, s.edits, s.twice
	s.pending, s.edits, s.twice = max(pend-1, 0), max(edits-1, 0), max(twice-1, 0)
	if w.sc.Prop != "C17" {
		return
	}
	v := w.v
	rest := w.m.Dp(32)
	n := len(v.panels)
	if n > 2 {
		w.o.Fail("panels", "%d keys are shown at once: %s", n, v)
		return
	}
	vague := w.now.Add(301 * time.Millisecond)
	if len(v.tabs) == 0 {
		// Nothing to choose from. A slide under way when the list became empty
		// keeps drawing the key that leaves until its time is over.
		if s.moving || pend > 0 {
			s.loose = vague
		}
		s.prev, s.moving = "", false
		if n > 0 && !w.now.Before(s.loose) {
			w.o.Fail("panels", "no keys are listed but one is shown: %s", v)
		}
		return
	}
	if n == 0 && w.emptied && core.IsKnown("none-shown-after-empty-list") {
		if pend > 0 {
			s.loose = vague
		}
		s.prev, s.moving = "", false
		return
	}
	if n == 0 {
		w.o.Fail("panels", "keys are listed but none is shown: %s", v)
		return
	}
	cur := v.panels[n-1]
	x := cur.x - rest
	if x < 0 {
		x = -x
	}
	switch changed := cur.path() != s.prev && s.prev != ""; {
	case pend > 0 && edits > 0:
		s.moving, s.loose = false, vague
	case twice > 0 && !changed && n == 2: // there and back in one frame
		s.moving, s.loose = false, vague
	case pend > 0 && w.emptied && (changed || s.prev == ""): // the first one slides in alone
		s.moving, s.loose = false, vague
	case pend > 0 && changed:
		s.moving, s.t0, s.absX = true, w.now, math.MaxInt32
		s.loose = time.Time{}
		core.Probe("slide.started")
		if n == 2 {
			core.Probe("slide.visible")
		}
	case edits > 0: // the panel may change its width
		s.absX = math.MaxInt32
	}
	s.prev = cur.path()
	at, ok := w.s.Next()
	el := w.now.Sub(s.t0)
	if !s.moving {
		if (n == 2 || x > 2) && !w.now.Before(s.loose) {
			w.o.Fail("not-at-rest", "no key was chosen recently but the detail panel is %d px from its place: %s", x, v)
		}
		if w.now.After(s.loose) {
			w.emptied = false
		}
		return
	}
	if x > s.absX+1 {
		w.o.Fail("moves-back", "%v after the choice the detail panel is %d px from its place, it was %d px before", el, x, s.absX)
		return
	}
	s.absX = x
	if el >= 301*time.Millisecond {
		if n != 1 || x > 2 {
			w.o.Fail("late", "%v after the choice the detail panel is still %d px from its place: %s", el, x, v)
			return
		}
		s.moving = false
		core.Probe("slide.finished")
		return
	}
	if n == 2 && (!ok || at.After(w.now)) {
		w.o.Fail("asks-for-no-frame", "%v after the choice the detail panel is %d px from its place and the window asks for no frame", el, x)
		return
	}
	if el <= 250*time.Millisecond && n != 2 {
		w.o.Fail("early", "%v after the choice the detail panel does not slide any more: %s", el, v)
	}
}
