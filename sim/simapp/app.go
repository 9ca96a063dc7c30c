// Package simapp stands in for gioui.org/app: the same types and functions,
// but the window system behind them is the simulator. Everything from the
// input router upwards is the real Gio code.
package simapp

import (
	"bytes"
	"image"
	"io"
	"strings"
	"time"
	"unicode/utf8"

	"gioui.org/app"
	"gioui.org/io/event"
	"gioui.org/io/input"
	"gioui.org/io/key"
	"gioui.org/io/pointer"
	"gioui.org/io/system"
	"gioui.org/io/transfer"
	"gioui.org/op"
	"gioui.org/unit"

	"github.com/mearaj/bips/zzverif/simrt"
)

type (
	FrameEvent   = app.FrameEvent
	DestroyEvent = app.DestroyEvent
	StageEvent   = app.StageEvent
	ConfigEvent  = app.ConfigEvent
	ViewEvent    = app.ViewEvent
	Option       = app.Option
	Config       = app.Config
	Insets       = app.Insets
	Stage        = app.Stage
	WindowMode   = app.WindowMode
	Orientation  = app.Orientation
)

const (
	StagePaused   = app.StagePaused
	StageInactive = app.StageInactive
	StageRunning  = app.StageRunning

	Windowed   = app.Windowed
	Fullscreen = app.Fullscreen
	Minimized  = app.Minimized
	Maximized  = app.Maximized

	AnyOrientation       = app.AnyOrientation
	LandscapeOrientation = app.LandscapeOrientation
	PortraitOrientation  = app.PortraitOrientation
)

var (
	NewContext      = app.NewContext
	Title           = app.Title
	Size            = app.Size
	MinSize         = app.MinSize
	MaxSize         = app.MaxSize
	StatusColor     = app.StatusColor
	NavigationColor = app.NavigationColor
	CustomRenderer  = app.CustomRenderer
	Decorated       = app.Decorated
	ID              = "bips"
)

func DataDir() (string, error) { return "/nonexistent", nil }

// Main blocks for ever, as it does on desktops.
func Main() { simrt.Block("the window system's main loop") }

// Window is what the program sees of its window.
type Window struct {
	s *Session
}

func NewWindow(options ...Option) *Window {
	w := &Window{s: cur}
	var cfg app.Config
	for _, o := range options {
		if o != nil {
			o(unit.Metric{PxPerDp: 1, PxPerSp: 1}, &cfg)
		}
	}
	if cur != nil && cur.win == nil {
		cur.win = w
	}
	return w
}

func (w *Window) Option(opts ...Option) {}

func (w *Window) Perform(a system.Action) {}

func (w *Window) Run(f func()) { f() }

func (w *Window) Invalidate() {
	if w.s != nil && w.s.win == w {
		w.s.invalidated = true
		w.s.setNext(time.Time{})
	}
}

// NextEvent delivers what the simulated window system has for the program.
func (w *Window) NextEvent() event.Event {
	s := w.s
	if s == nil || s.win != w {
		simrt.Block("an event of a window that does not exist")
		select {}
	}
	if s.destroyed {
		s.AfterDestroy++
		s.wakeDriver()
		simrt.Block("an event after the window was closed")
	}
	s.waiting = simrt.Cur()
	s.wakeDriver()
	for s.pend == nil {
		if !simrt.Block("a window event") {
			return DestroyEvent{}
		}
	}
	e := s.pend
	s.pend = nil
	s.waiting = nil
	if _, ok := e.(DestroyEvent); ok {
		s.destroyed = true
	}
	return e
}

// Session is the window system of one simulated run.
type Session struct {
	win       *Window
	waiting   *simrt.Task // the program's task inside NextEvent
	pend      event.Event
	driver    *simrt.Task // the driver, when it waits
	destroyed bool

	Router       input.Router
	hasNext      bool
	nextAt       time.Time
	invalidated  bool
	answered     int
	viewport     image.Rectangle
	ime          editorState
	Clipboard    string // content of the system clipboard
	ClipBroken   bool   // reading the clipboard fails in mid-stream
	Copied       *string
	PasteHeld    bool // the clipboard answers only when told
	pasteWaiting bool
	AfterDestroy int
	Frames       int
	Semantics    []input.SemanticNode
}

var cur *Session

// Start makes a new session current.
func Start() *Session {
	cur = &Session{}
	return cur
}

func (s *Session) wakeDriver() {
	if s.driver != nil {
		simrt.Wake(s.driver)
		s.driver = nil
	}
}

// Ready waits until the program waits for an event. It reports false when the
// run is over.
func (s *Session) Ready() bool {
	for s.win == nil || s.waiting == nil || s.pend != nil {
		s.driver = simrt.Cur()
		if !simrt.Block("the program to ask for its next event") {
			return false
		}
	}
	return true
}

// Send delivers an event which needs no answer.
func (s *Session) Send(e event.Event) {
	if !s.Ready() {
		return
	}
	s.pend = e
	simrt.Wake(s.waiting)
}

// Destroy closes the window.
func (s *Session) Destroy(err error) { s.Send(DestroyEvent{Err: err}) }

func (s *Session) setNext(at time.Time) {
	if !s.hasNext || at.Before(s.nextAt) {
		s.hasNext = true
		s.nextAt = at
	}
}

// Next is the time at which the window wants its next frame; zero is "now".
func (s *Session) Next() (time.Time, bool) { return s.nextAt, s.hasNext }

// Frame has the program draw a frame and reports whether it answered.
func (s *Session) Frame(now time.Time, size image.Point, m unit.Metric, in Insets) bool {
	if !s.Ready() {
		return false
	}
	s.hasNext = false
	s.invalidated = false
	vp := image.Rectangle{Max: size}
	if old, new := s.viewport.Size(), vp.Size(); new.X < old.X || new.Y < old.Y {
		s.Router.RevealFocus(vp)
	}
	s.viewport = vp
	n := s.answered
	s.pend = FrameEvent{Now: now, Metric: m, Size: size, Insets: in, Source: s.Router.Source(), Frame: func(o *op.Ops) {
		if s.answered != n {
			return // answered before
		}
		s.answered++
		s.process(o)
	}}
	s.Frames++
	simrt.Wake(s.waiting)
	if !s.Ready() {
		return false
	}
	return s.answered != n
}

func (s *Session) process(o *op.Ops) {
	q := &s.Router
	q.Frame(o)
	s.Semantics = q.AppendSemantics(nil)
	if _, txt, ok := q.WriteClipboard(); ok {
		t := string(txt)
		s.Copied = &t
		s.Clipboard = t
	}
	if q.ClipboardRequested() {
		s.pasteWaiting = true
		if !s.PasteHeld {
			s.Paste()
		}
	}
	s.ime.EditorState = q.EditorState()
	if t, ok := q.WakeupTime(); ok {
		s.setNext(t)
	}
}

type brokenReader struct {
	r   io.Reader
	err error
}

func (b *brokenReader) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = b.err
	}
	return n, err
}
func (b *brokenReader) Close() error { return nil }

// PasteWaiting reports whether the program waits for the clipboard.
func (s *Session) PasteWaiting() bool { return s.pasteWaiting }

// Paste answers the program's request for the clipboard.
func (s *Session) Paste() {
	s.pasteWaiting = false
	txt, broken := s.Clipboard, s.ClipBroken
	s.Queue(transfer.DataEvent{Type: "application/text", Open: func() io.ReadCloser {
		if broken {
			return &brokenReader{strings.NewReader(txt[:len(txt)/2]), io.ErrUnexpectedEOF}
		}
		return io.NopCloser(bytes.NewReader([]byte(txt)))
	}})
}

// Queue is an input event from the window system.
func (s *Session) Queue(e event.Event) {
	dir := key.FocusDirection(-1)
	if k, ok := e.(key.Event); ok && k.State == key.Press && k.Name == key.NameTab {
		switch k.Modifiers {
		case 0:
			dir = key.FocusForward
		case key.ModShift:
			dir = key.FocusBackward
		}
	}
	if dir != -1 {
		e = input.SystemEvent{Event: e}
	}
	s.Router.Queue(e)
	t, handled := s.Router.WakeupTime()
	if dir != -1 && !handled {
		s.Router.MoveFocus(dir)
		if t, handled = s.Router.WakeupTime(); handled {
			s.Router.RevealFocus(s.viewport)
		}
	}
	if handled {
		s.setNext(t)
	}
}

// Wake makes the window want a frame now, as the window system does when the
// window is exposed or resized.
func (s *Session) Wake() { s.setNext(time.Time{}) }

// ClickFocus activates the focused widget.
func (s *Session) ClickFocus() {
	s.Router.ClickFocus()
	s.setNext(time.Time{})
}

// Pointer sends a pointer event.
func (s *Session) Pointer(e pointer.Event) { s.Queue(e) }

// Insert types text through the input method, as the real window does.
func (s *Session) Insert(text string) {
	sel := s.ime.Selection.Range
	s.Replace(sel, text)
	start := sel.Start
	if sel.End < start {
		start = sel.End
	}
	sel.Start = start + utf8.RuneCountInString(text)
	sel.End = sel.Start
	s.Select(sel)
}

func (s *Session) Replace(r key.Range, text string) {
	s.ime.Replace(r, text)
	s.Queue(key.EditEvent{Range: r, Text: text})
	s.Queue(key.SnippetEvent(s.ime.Snippet.Range))
}

func (s *Session) Select(r key.Range) {
	s.ime.Selection.Range = r
	s.Queue(key.SelectionEvent(r))
}

// Snippet asks for the text around the caret.
func (s *Session) Snippet(r key.Range) {
	if s.ime.Snippet.Range != r {
		s.Queue(key.SnippetEvent(r))
	}
}

// IME is the input method's view of the focused editor.
func (s *Session) IME() input.EditorState { return s.ime.EditorState }

type editorState struct {
	input.EditorState
}

// Replace follows gioui.org/app.
func (e *editorState) Replace(r key.Range, text string) {
	if r.Start > r.End {
		r.Start, r.End = r.End, r.Start
	}
	runes := []rune(text)
	newEnd := r.Start + len(runes)
	adjust := func(pos int) int {
		switch {
		case newEnd < pos && pos <= r.End:
			return newEnd
		case r.End < pos:
			diff := newEnd - r.End
			return pos + diff
		}
		return pos
	}
	e.Selection.Start = adjust(e.Selection.Start)
	e.Selection.End = adjust(e.Selection.End)
	s := e.Snippet
	if r.End < s.Start || r.Start > s.End {
		s = key.Snippet{Range: key.Range{Start: r.Start, End: r.Start}}
	}
	var newSnippet []rune
	snippet := []rune(s.Text)
	if end := r.Start - s.Start; end > 0 && end <= len(snippet) {
		newSnippet = append(newSnippet, snippet[:end]...)
	}
	newSnippet = append(newSnippet, runes...)
	if start := r.End; start < s.End && start-s.Start >= 0 && start-s.Start <= len(snippet) {
		newSnippet = append(newSnippet, snippet[start-s.Start:]...)
	}
	if r.Start < s.Start {
		s.Start = r.Start
	}
	s.End = s.Start + len(newSnippet)
	s.Text = string(newSnippet)
	e.Snippet = s
}

// HasNext reports whether the window wants a frame at some time.
func (s *Session) HasNext() bool { return s.hasNext }
