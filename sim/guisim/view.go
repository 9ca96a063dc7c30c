package main

import (
	"fmt"
	"image"
	"regexp"
	"slices"

	"gioui.org/io/input"
	"gioui.org/io/semantic"
)

// view is what a user sees in one frame: the accessibility tree, sorted into
// the parts of the tool.
type view struct {
	gen     image.Rectangle
	hasGen  bool
	radios  []radio
	editors []image.Rectangle
	input   image.Rectangle // the heading INPUT
	output  image.Rectangle // the heading OUTPUT
	arrows  []image.Rectangle
	tabs    []tab
	panels  []panel
	stray   []string // labels below OUTPUT that belong to nothing known
}

type radio struct {
	label string
	sel   bool
	r     image.Rectangle
}

type tab struct {
	label string
	r     image.Rectangle
}

// panel is the detail display of one key.
type panel struct {
	x     int
	lines []string
}

func (p panel) path() string { return p.lines[0] }

var pathLike = regexp.MustCompile(`^[mM](/\d+'?)*$`)

func parse(nodes []input.SemanticNode) *view {
	v := &view{}
	if len(nodes) == 0 {
		return v
	}
	out := false
	type btn struct {
		r     image.Rectangle
		class semantic.ClassOp
		sel   bool
		label string
		out   bool
	}
	var walk func(n *input.SemanticNode, b *btn)
	var btns []*btn
	walk = func(n *input.SemanticNode, b *btn) {
		d := &n.Desc
		switch {
		case d.Class == semantic.Button || d.Class == semantic.RadioButton || d.Class == semantic.CheckBox:
			b = &btn{r: d.Bounds, class: d.Class, sel: d.Selected, out: out}
			btns = append(btns, b)
		case d.Class == semantic.Editor:
			v.editors = append(v.editors, d.Bounds)
		}
		if d.Label != "" {
			switch {
			case b != nil:
				b.label += d.Label
			case d.Label == "INPUT" && !out:
				v.input = d.Bounds
			case d.Label == "OUTPUT" && !out:
				v.output = d.Bounds
				out = true
			case !out:
			case pathLike.MatchString(d.Label):
				v.panels = append(v.panels, panel{d.Bounds.Min.X, []string{d.Label}})
			case len(v.panels) > 0:
				p := &v.panels[len(v.panels)-1]
				p.lines = append(p.lines, d.Label)
			default:
				v.stray = append(v.stray, d.Label)
			}
		}
		for i := range n.Children {
			walk(&n.Children[i], b)
		}
	}
	walk(&nodes[0], nil)
	for _, b := range btns {
		switch {
		case b.class == semantic.RadioButton:
			v.radios = append(v.radios, radio{b.label, b.sel, b.r})
		case !b.out:
			v.gen, v.hasGen = b.r, true
		case b.label == "":
			v.arrows = append(v.arrows, b.r)
		default:
			v.tabs = append(v.tabs, tab{b.label, b.r})
		}
	}
	return v
}

func (v *view) tabLabels() []string {
	var s []string
	for _, t := range v.tabs {
		s = append(s, t.label)
	}
	return s
}

func (v *view) String() string {
	s := fmt.Sprintf("tabs %q", v.tabLabels())
	for _, p := range v.panels {
		s += fmt.Sprintf(" panel@%d %q", p.x, p.lines)
	}
	for _, r := range v.radios {
		if r.sel {
			s += " [" + r.label + "]"
		}
	}
	return s
}

// overflows tells whether the listed keys fill even the widest window, so
// that more of them may be out of sight.
func (v *view) overflows() bool {
	w := 0
	for _, t := range v.tabs {
		w = max(w, t.r.Max.X)
	}
	return w > bigW*9/10
}

// run tells whether b is a part of a without gaps.
func run(a, b []string) bool {
	for i := 0; i+len(b) <= len(a); i++ {
		if slices.Equal(a[i:i+len(b)], b) {
			return true
		}
	}
	return false
}
