package main

import (
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/mearaj/bips/zzverif/core"
	"github.com/mearaj/bips/zzverif/ref"
	"github.com/mearaj/bips/zzverif/simrt"
)

// gen draws a session: what the user does, when frames are drawn and what
// goes wrong around it.
type gen struct {
	*simrt.Rand
	sc       *core.Scenario
	thorough bool
	mns      []string
	seeds    []string
	roots    []string
	paths    []string
	passes   []string
	last     [5]string // what was put into a field last
}

func pick[T any](g *gen, l []T) T { return l[g.Intn(len(l))] }

func (guiSim) Gen(prop string, seed uint64, thorough bool) *core.Scenario {
	g := &gen{Rand: simrt.NewRand(seed), thorough: thorough}
	g.sc = &core.Scenario{Prop: prop, Seed: seed, Mode: "gui", Ints: map[string]int{
		"w": bigW, "h": 5000, "scale": 100, "font": 100, "vsync": 16, "mapseed": g.Intn(1 << 20),
	}}
	g.sc.Ints["touch"] = g.Intn(2)
	g.sc.Ints["vsync"] = []int{16, 16, 16, 8, 33, 4, 50, 1, 120}[g.Intn(9)]
	g.pools()
	switch prop {
	case "C15":
		g.genChain()
	case "C16":
		g.genTabs()
	case "C17":
		g.genSlide()
	case "C18":
		g.genButton()
	case "C19":
		g.genAny()
	default:
		panic("guisim: no such property: " + prop)
	}
	return g.sc
}

func (g *gen) add(s core.Step) { g.sc.Steps = append(g.sc.Steps, s) }

func (g *gen) window(w, h, scale int) {
	g.sc.Ints["w"], g.sc.Ints["h"], g.sc.Ints["scale"] = w, h, scale
}

// someWindow draws a window in which at least the upper fields can be used.
func (g *gen) someWindow() {
	switch g.Intn(6) {
	case 0:
		g.window(1600, 1200, 100)
	case 1:
		g.window(800, 700, 100)
	case 2:
		g.window(420, 900, 100)
	case 3:
		g.window(2400, 1800, 200)
	}
	if g.Chance(0.1) {
		g.sc.Ints["font"] = []int{80, 130, 200}[g.Intn(3)]
	}
}

// ---- values ----

func (g *gen) entropy() []byte {
	n := []int{16, 20, 24, 28, 32}[g.Intn(5)]
	b := g.Bytes(n)
	switch g.Intn(8) {
	case 0:
		b = make([]byte, n)
	case 1:
		for i := 0; i < 1+g.Intn(n-1); i++ {
			b[i] = 0
		}
	case 2:
		for i := range b {
			b[i] = 0xff
		}
	}
	return b
}

func (g *gen) pools() {
	for i := 0; i < 3; i++ {
		m, err := english().Mnemonic(g.entropy())
		if err != nil {
			panic(err)
		}
		g.mns = append(g.mns, m)
		g.seeds = append(g.seeds, g.seedHex())
		g.roots = append(g.roots, g.root())
		g.paths = append(g.paths, g.path())
		g.passes = append(g.passes, g.pass())
	}
	if !g.Chance(0.04) {
		return
	}
	// pairs with equal hashes
	switch g.Intn(3) {
	case 0:
		i, j := core.Collide(g.Rand, "seedhex", "key", "pub")
		g.seeds = append(g.seeds[:0], hex.EncodeToString(core.Seed16(i)), hex.EncodeToString(core.Seed16(j)))
	case 1:
		i, j := core.Collide(g.Rand, "key", "prv", "prvhex", "cc", "pub", "pubhex", "b58", "xpub", "xpub58")
		g.roots = g.roots[:0]
		for _, x := range []uint32{i, j} {
			k, _ := ref.MasterKey(core.Seed16(x))
			g.roots = append(g.roots, k.B58())
		}
	case 2:
		i, j := core.Collide(g.Rand, "path")
		g.paths = append(g.paths[:0], core.Path16(i), core.Path16(j))
	}
}

var passphrases = []string{"TREZOR", " ", "a", "password", "correct horse", "mnemonic", "p q", "0", "~!@#$%^&*()", "trailing ", " leading"}

func (g *gen) pass() string {
	if g.Chance(0.2) {
		return hex.EncodeToString(g.Bytes(1 + g.Intn(60)))
	}
	return pick(g, passphrases)
}

func (g *gen) seedHex() string {
	switch g.Intn(10) {
	case 0:
		return hex.EncodeToString(g.Bytes(g.Intn(16)))
	case 1:
		return pick(g, []string{"0", "zz", "0x00", strings.Repeat("0", 31), strings.Repeat("0g", 16), "seed", strings.Repeat("0", 33), strings.Repeat("a", 127)})
	case 2:
		return strings.ToUpper(hex.EncodeToString(g.Bytes(64)))
	case 3:
		return " " + hex.EncodeToString(g.Bytes(32))
	case 4:
		return pick(g, []string{"4b381541583be4423346c643850da4b320e46a87ae3d2a4e6da11eba819cd4acba45d239319ac14f863b8d5ab5a0d2d77cf6b1f0",
			"3ddd5602285899a946114506157c7997e5444528f3003f6134712147db19b678", "000102030405060708090a0b0c0d0e0f"})
	}
	return hex.EncodeToString(g.Bytes([]int{16, 32, 64, 16 + g.Intn(49)}[g.Intn(4)]))
}

var oddScalars = []uint32{1, 2, 3, 153, 246, 886, 1158, 122, 130, 533, 544, 44629, 58165}

func (g *gen) key() ref.Key {
	k, err := ref.MasterKey(g.Bytes(32))
	if err != nil {
		return g.key()
	}
	if g.Chance(0.15) {
		for i := 46; i < 78; i++ {
			k[i] = 0
		}
		s := pick(g, oddScalars)
		k[75], k[76], k[77] = byte(s>>16), byte(s>>8), byte(s)
	}
	if g.Chance(0.4) {
		k.SetVersion(pick(g, ref.PvtVersions))
	}
	return k
}

// twin draws a key that differs from another one in one part only.
func (g *gen) twin(s string) string {
	k, err := ref.B58Deserialize(s)
	if err != nil {
		return g.root()
	}
	switch g.Intn(5) {
	case 0, 1: // the chain code
		if g.Chance(0.5) {
			k[13+g.Intn(32)] ^= byte(1 << g.Intn(8))
		} else {
			copy(k[13:45], g.Bytes(32))
		}
	case 2:
		k.SetVersion(pick(g, ref.PvtVersions))
	case 3: // where it comes from
		if g.Chance(0.5) {
			k[4] = byte(g.Intn(4))
			if g.Chance(0.5) { // almost at the bottom
				k[4] = byte(250 + g.Intn(6))
			}
		}
		copy(k[5:13], g.Bytes(8))
	case 4: // the key itself
		k[45+32-g.Intn(8)] ^= byte(1 << g.Intn(8))
	}
	return k.B58()
}

// root draws the text of a root key, most of them usable.
func (g *gen) root() string {
	if len(g.roots) > 0 && g.Chance(0.15) {
		return g.twin(pick(g, g.roots))
	}
	k := g.key()
	switch g.Weighted(12, 1, 1, 1, 2) {
	case 1: // public
		n := k.Neuter()
		return n.B58()
	case 2: // not a master key
		c, err := k.Child(uint32(g.Intn(4)))
		if err != nil {
			return g.root()
		}
		return c.B58()
	case 3:
		return pick(g, []string{"xprv", "x", "1", "0OIl", " ", "11111111111111111111", "not a key"})
	case 4: // a mistyped key
		s := []byte(k.B58())
		i := g.Intn(len(s))
		switch g.Intn(4) {
		case 0:
			s[i] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"[g.Intn(58)]
		case 1:
			s = append(s[:i], s[i+1:]...)
		case 2:
			return string(s) + pick(g, []string{" ", "1", "x"})
		case 3:
			return pick(g, []string{" ", "1", "x"}) + string(s)
		}
		return string(s)
	}
	return k.B58()
}

// path draws a derivation path.
func (g *gen) path() string { return g.pathN(g.pathLen()) }

// pathLen draws the number of components of a path: few, mostly.
func (g *gen) pathLen() int {
	switch {
	case g.Chance(0.05):
		return 8 + g.Intn(56)
	case g.Chance(0.005):
		return 200 + g.Intn(70)
	case g.Chance(0.005): // as deep as a key can be
		return 253 + g.Intn(5)
	}
	return 1 + g.Intn(7)
}

func (g *gen) pathN(n int) string {
	var c []string
	h := g.Intn(n + 1)
	for i := 0; i < n; i++ {
		if i > 0 && g.Chance(0.15) { // the same once more
			c = append(c, c[i-1])
		} else if n > 70 { // what is listed has to fit the window
			c = append(c, fmt.Sprint(g.Intn(3)))
		} else if i < h {
			c = append(c, fmt.Sprintf("%d'", pick(g, []uint32{0, 44, 49, 84, 60, 1, 2147483647, g.U32() >> 1})))
		} else {
			c = append(c, fmt.Sprint(pick(g, []uint32{0, 1, 2, uint32(g.Intn(100)), g.U32() >> 1, 2147483648, 4294967295})))
		}
	}
	p := strings.Join(append([]string{pick(g, []string{"m", "m", "m", "M"})}, c...), "/")
	switch g.Weighted(14, 1, 1, 4) {
	case 1:
		i := g.Intn(len(p) + 1)
		p = p[:i] + pick(g, []string{" ", "\t", "  "}) + p[i:]
	case 2:
		p = strings.Replace(p, "/", "/00", 1)
	case 3:
		p = pick(g, []string{"", "m", "/", "m/", "m//0", "n/0", "m/0/1'", "m/-1", "m/+1", "m/1.5", "m/a", "m/4294967296", "m/2147483648'",
			"m/99999999999999999999999", "m/44'/4294967297/1", "m/44''", "m/'", "m/0h", "0/1", "mm/0", "m/0/", "m0", "/m/0"})
	}
	return p
}

func (g *gen) mnemonic() string {
	m := pick(g, g.mns)
	w := strings.Split(m, " ")
	switch g.Weighted(12, 2, 4, 1) {
	case 1: // spacing
		switch g.Intn(4) {
		case 0:
			return strings.Join(w, "  ")
		case 1:
			return " " + m
		case 2:
			return m + " "
		}
		return strings.Join(w, "\t")
	case 2:
		n := len(w)
		switch g.Intn(6) {
		case 0:
			w[g.Intn(n)] = english().W[g.Intn(2048)]
		case 1:
			w = w[:g.Intn(n)]
		case 2:
			w = append(w, english().W[g.Intn(2048)])
		case 3:
			i, j := g.Intn(n), g.Intn(n)
			w[i], w[j] = w[j], w[i]
		case 4:
			w[g.Intn(n)] = pick(g, []string{"zzz", "Abandon", "bitcoin", "abandon1", "aban"})
		case 5:
			w = append(w, w...)
		}
		return strings.Join(w, " ")
	case 3:
		return pick(g, []string{" ", "word", strings.Repeat("zoo ", 12), strings.TrimSpace(strings.Repeat("abandon ", 24))})
	}
	return m
}

// value draws a text for a field.
func (g *gen) value(f int) string {
	v := g.value0(f)
	if g.Chance(0.04) {
		v = core.Kin(g.Rand, v)
	}
	if l := g.last[f]; l != "" && (f == fPass && g.Chance(0.3) || g.Chance(0.1)) {
		v = core.Kin(g.Rand, l) // almost what was there
	}
	g.last[f] = v
	return v
}

func (g *gen) value0(f int) string {
	if g.Chance(0.06) {
		return ""
	}
	fresh := g.Chance(0.4)
	switch f {
	case fMnemonic:
		return g.mnemonic()
	case fPass:
		if fresh {
			return g.pass()
		}
		return pick(g, g.passes)
	case fSeed:
		if fresh {
			return g.seedHex()
		}
		return pick(g, g.seeds)
	case fRoot:
		if fresh {
			return g.root()
		}
		return pick(g, g.roots)
	}
	if fresh {
		return g.path()
	}
	return pick(g, g.paths)
}

// edit draws an edit of a field.
func (g *gen) edit(f int) core.Step {
	s := core.Step{K: "edit", A: f, S: g.value(f), C: g.Intn(2)}
	switch g.Weighted(10, 5, 2, 2, 1, 2, 1, 2, 1, 2) {
	case 1:
		s.B = 1
	case 2:
		s.B = 2
		s.S = pick(g, []string{"/0", "/1", "'", " ", "a", " abandon", "0", "/", "ff"})
	case 3:
		s.B, s.D, s.S = 3, 1+g.Intn(5), ""
	case 4:
		s.B, s.S = 4, ""
	case 5:
		s.B, s.D, s.S = 5, g.Intn(2), ""
	case 6:
		s.B, s.D = 6, []int{1, 3, 10, 50}[g.Intn(4)]
		if len(s.S) > 40 && s.D < 10 {
			s.D = 10
		}
	case 7:
		s.B, s.D, s.S = 7, g.Intn(5), ""
	case 8:
		s.B, s.D, s.S = 8, g.Intn(20), pick(g, []string{"0", "/1", "a", " ", "'"})
	case 9:
		s.B = 9
	}
	return s
}

// field draws which field is edited.
func (g *gen) field() int { return g.Weighted(5, 3, 3, 4, 5) }

// timing draws what happens between two actions.
func (g *gen) timing() {
	switch g.Weighted(6, 3, 2, 1, 1, 1) {
	case 1:
		g.add(core.Step{K: "frame", A: 1 + g.Intn(3), MS: []float64{0, 1, 16, 40, 300, 2000}[g.Intn(6)]})
	case 2:
		g.add(core.Step{K: "run", MS: float64(g.Intn(700)), A: []int{0, 0, 0, 1, 7, 100}[g.Intn(6)]})
	case 3:
		g.add(core.Step{K: "jump", MS: []float64{10, 500, 3600e3, 86400e3}[g.Intn(4)]})
	case 4:
		g.add(core.Step{K: "resize", A: []int{bigW, 1600, 800, 500}[g.Intn(4)], B: []int{5000, 1200, 600, 200}[g.Intn(4)]})
	case 5:
		g.add(core.Step{K: "idle"})
	}
}

// ---- C15: what is shown belongs together ----

func (g *gen) genChain() {
	g.someWindow()
	n := 2 + g.Intn(10)
	if g.thorough && g.Chance(0.2) {
		n += g.Intn(25)
	}
	checks := 0
	for i := 0; i < n; i++ {
		switch g.Weighted(12, 1, 1, 2) {
		case 3:
			g.burst()
		case 0:
			g.add(g.edit(g.field()))
		case 1:
			g.add(core.Step{K: "click", S: "gen", D: g.Intn(2), P: g.plan(0.15)})
		case 2:
			g.add(core.Step{K: "click", S: pick(g, []string{"tab", "left", "right", "radio"}), A: g.Intn(8)})
		}
		if g.Chance(0.4) {
			g.timing()
		}
		if checks < 4 && g.Chance(0.3) {
			checks++
			g.add(core.Step{K: "check", C: g.Intn(2)})
		}
	}
	g.add(core.Step{K: "check", C: 1})
}

// burst fills the fields above one and then edits that one again and again,
// each time only a little.
func (g *gen) burst() {
	f := g.Weighted(2, 4, 1, 1, 2)
	switch f {
	case fMnemonic, fPass:
		g.add(core.Step{K: "edit", A: fMnemonic, S: pick(g, g.mns)})
	case fPath:
		g.fillKeys()
	}
	v := map[int][]string{fMnemonic: g.mns, fPass: g.passes, fSeed: g.seeds, fRoot: g.roots, fPath: g.paths}[f]
	s := pick(g, v)
	for k := 2 + g.Intn(3); k > 0; k-- {
		g.add(core.Step{K: "edit", A: f, S: s, B: g.Intn(2)})
		g.last[f] = s
		if g.Chance(0.5) {
			g.add(core.Step{K: "check", C: g.Intn(2)})
		}
		if f == fRoot && g.Chance(0.6) {
			s = g.twin(s)
		} else {
			s = core.Kin(g.Rand, s)
		}
		if g.Chance(0.3) {
			s = pick(g, v)
		}
	}
	g.add(core.Step{K: "check"})
}

// ---- C16: exactly one key shown, choices lead where they say ----

// fillKeys makes the window list keys.
func (g *gen) fillKeys() {
	switch g.Intn(4) {
	case 0:
		g.add(core.Step{K: "edit", A: fMnemonic, S: pick(g, g.mns)})
	case 1:
		g.add(core.Step{K: "edit", A: fSeed, S: hex.EncodeToString(g.Bytes(64))})
	case 2:
		k := g.key()
		g.add(core.Step{K: "edit", A: fRoot, S: k.B58(), B: g.Intn(2)})
	case 3:
		g.add(core.Step{K: "click", S: "gen"})
	}
	if g.Chance(0.9) {
		g.add(core.Step{K: "edit", A: fPath, S: g.goodPath(g.pathLen())})
	}
	g.add(core.Step{K: "frame"})
}

// goodPath draws a valid path with n components.
func (g *gen) goodPath(n int) string {
	p, last := "m", uint32(0)
	big := g.Chance(0.2) // as many digits as there can be
	if big && g.Chance(0.5) {
		n += 3 + g.Intn(5)
	}
	h := g.Intn(n + 1)
	for i := 0; i < n; i++ {
		v := pick(g, []uint32{0, 1, 44, 60, 84, uint32(g.Intn(9)), g.U32() >> 1})
		if big {
			v = 1<<31 - 1 - g.U32()>>4
		}
		if n > 70 {
			v = uint32(g.Intn(3))
		}
		if i > 0 && g.Chance(0.1) { // the same once more
			v = last
		}
		last = v
		p += fmt.Sprintf("/%d", v)
		if i < h && n <= 70 {
			p += "'"
		}
	}
	return p
}

// emptyKeys makes the window list fewer keys or none.
func (g *gen) emptyKeys() {
	switch g.Intn(8) {
	case 0, 1:
		g.add(core.Step{K: "edit", A: fPath, S: g.goodPath(1 + g.Intn(3))})
	case 2:
		g.add(core.Step{K: "edit", A: fPath, S: pick(g, []string{"", "x", "m", "m/"})})
	case 3:
		g.add(core.Step{K: "edit", A: fRoot, S: pick(g, []string{"", "x", "xprv"})})
	case 4:
		g.add(core.Step{K: "edit", A: fMnemonic, S: pick(g, []string{"x", "zoo zoo"})})
	case 5:
		g.add(core.Step{K: "edit", A: fSeed, S: pick(g, []string{"", "x", "00"})})
	case 6:
		g.add(core.Step{K: "edit", A: fPath, B: 3, D: 1 + g.Intn(6), C: 1})
	case 7:
		g.add(core.Step{K: "click", S: "gen", P: &core.ReadPlan{Tail: "fail"}})
	}
}

func (g *gen) choose(kind string) core.Step {
	s := core.Step{K: kind, S: pick(g, []string{"tab", "tab", "left", "right", "right"}), A: g.Intn(8)}
	if g.Chance(0.15) {
		s.C = 1
	}
	return s
}

func (g *gen) genTabs() {
	if g.Chance(0.4) {
		g.someWindow()
	}
	g.fillKeys()
	n := 3 + g.Intn(12)
	if g.thorough && g.Chance(0.2) {
		n += g.Intn(30)
	}
	for i := 0; i < n; i++ {
		switch g.Weighted(8, 4, 2, 3, 1, 1) {
		case 0:
			g.add(g.choose("nav"))
		case 1: // several choices close together
			for k := 0; k < 2+g.Intn(4); k++ {
				s := g.choose("click")
				s.B = g.Intn(3)
				s.D = g.Intn(3)
				g.add(s)
			}
		case 2:
			g.fillKeys()
		case 3:
			g.emptyKeys()
			if g.Chance(0.3) {
				g.add(g.choose("click"))
			}
		case 4:
			g.timing()
		case 5: // the list changes and a key is chosen at the same time
			g.add(g.edit(g.field()))
			s := g.choose("click")
			g.add(s)
		}
		if g.Chance(0.2) {
			g.add(core.Step{K: "check", C: g.Intn(2)})
		}
	}
	if g.Chance(0.5) {
		g.fillKeys()
		g.add(g.choose("nav"))
	}
	g.add(core.Step{K: "check", C: 1})
}

// ---- C17: the slide ----

func (g *gen) genSlide() {
	sc := []int{100, 100, 200, 150, 75}[g.Intn(5)]
	g.window(16*sc+g.Intn(8*sc), 20*sc, sc)
	g.fillKeys()
	g.add(core.Step{K: "run", MS: 1000})
	n := 3 + g.Intn(15)
	if g.thorough && g.Chance(0.2) {
		n += g.Intn(30)
	}
	for i := 0; i < n; i++ {
		s := g.choose("click")
		if g.Chance(0.1) {
			s.B = 2
		}
		g.add(s)
		// What the frames are like afterwards.
		switch g.Weighted(5, 3, 2, 2, 2, 2, 1, 2, 2) {
		case 0:
			g.add(core.Step{K: "run", MS: 400})
		case 1: // choose again on the way
			g.add(core.Step{K: "run", MS: float64(g.Intn(320))})
		case 2: // repeated timestamps
			g.add(core.Step{K: "frame", A: 1 + g.Intn(6), MS: 0})
			g.add(core.Step{K: "run", MS: float64(g.Intn(500))})
		case 3: // irregular frames
			for k := 0; k < 1+g.Intn(8); k++ {
				g.add(core.Step{K: "frame", MS: float64(g.Intn(90))})
			}
		case 4: // a stall
			g.add(core.Step{K: "frame", MS: float64(g.Intn(60))})
			g.add(core.Step{K: "frame", MS: float64(200 + g.Intn(2000))})
		case 5: // clock jumps
			g.add(core.Step{K: "frame", MS: float64(g.Intn(100))})
			g.add(core.Step{K: "jump", MS: []float64{50, 299, 1000, 3600e3, 864e5}[g.Intn(5)]})
			g.add(core.Step{K: "run", MS: float64(g.Intn(400))})
		case 6:
			g.add(core.Step{K: "idle", A: g.Intn(2)})
		case 7: // very many frames
			g.add(core.Step{K: "run", MS: float64(100 + g.Intn(300)), A: 1 + g.Intn(3)})
		case 8: // an edit on the way
			g.add(core.Step{K: "run", MS: float64(g.Intn(250))})
			g.add(g.edit(pick(g, []int{fPath, fPath, fMnemonic, fRoot, fPass})))
			g.add(core.Step{K: "run", MS: float64(g.Intn(800))})
		}
		if g.Chance(0.12) {
			g.add(core.Step{K: "run", MS: 800})
			g.fillKeys()
		}
	}
	g.add(core.Step{K: "run", MS: 500})
	g.add(core.Step{K: "idle"})
}

// ---- C18: the generate button ----

func (g *gen) plan(fault float64) *core.ReadPlan {
	if g.Chance(0.35) {
		return nil
	}
	p := &core.ReadPlan{}
	for i := 0; i < g.Intn(4); i++ {
		s := core.ReadStep{N: -1}
		switch g.Intn(3) {
		case 0:
			s.N = g.Intn(33)
		case 1:
			s.N = g.Intn(4)
		}
		if g.Chance(fault) {
			s.Err = pick(g, readErrNames)
			if g.Chance(0.5) {
				s.N = 0
			}
		}
		p.Steps = append(p.Steps, s)
	}
	if g.Chance(fault * 0.6) {
		p.Tail = "fail"
	} else if g.Chance(0.15) {
		p.Tail = "one"
	}
	switch g.Intn(16) {
	case 0:
		p.Pat = "zero"
	case 1:
		p.Pat = "ff"
	case 2, 3:
		p.Pat = fmt.Sprintf("lead%d", 1+g.Intn(8))
	}
	return p
}

func (g *gen) genButton() {
	g.someWindow()
	n := 1 + g.Intn(5)
	if g.thorough && g.Chance(0.2) {
		n += g.Intn(10)
	}
	for i := 0; i < n; i++ {
		for k := g.Intn(3); k > 0; k-- {
			switch g.Weighted(5, 3, 3, 1) {
			case 0:
				g.add(core.Step{K: "click", S: "radio", A: g.Intn(5), D: g.Intn(2)})
			case 1:
				g.add(g.edit(fPass))
			case 2:
				g.add(g.edit(fPath))
			case 3:
				g.add(g.edit(pick(g, []int{fMnemonic, fSeed, fRoot})))
			}
			if g.Chance(0.2) {
				g.timing()
			}
		}
		s := core.Step{K: "click", S: "gen", P: g.plan(0.4), D: g.Intn(3)}
		if g.Chance(0.15) {
			s.B = 2 + g.Intn(2)
		}
		if g.Chance(0.15) {
			s.C = 1
		}
		g.add(s)
		if g.Chance(0.25) { // changes after the click keep the entropy
			if g.Chance(0.5) {
				g.add(core.Step{K: "frame"})
			}
			g.add(g.edit(pick(g, []int{fPass, fPath})))
		}
		if g.Chance(0.15) {
			g.add(core.Step{K: "click", S: "radio", A: g.Intn(5), D: g.Intn(2)})
		}
		if g.Chance(0.3) {
			g.timing()
		}
		if g.Chance(0.8) {
			g.add(core.Step{K: "check", C: g.Weighted(2, 1)})
		}
	}
	g.add(core.Step{K: "click", S: "gen"})
	g.add(core.Step{K: "check", C: 1})
}

// ---- C19: anything a window system can deliver ----

var wild = []string{"", "\x00", "\u00fc", "\u65e5\u672c\u8a9e", "\U0001f511\U0001f511", "\u0627\u0644\u0639\u0631\u0628\u064a\u0629", "e\u0301", "\u200b", "\ufeff", "\u202e",
	"\u3042", "\u3042 \u3044", "\u3001\u3000\u3042", "\u00a0a", "\n", "\r\n", "a\nb", "\t", "\u2028", "\uffff", "\U0010ffff", "-1", "4294967296", "m/4294967296", "m/-0", "m/\u0663", "9999999999999999999999",
	"0x", "%s%d%n", "'", "''", "/", "//", "m", "M", "m//", "m/'", "m/0'/1/2'"}

func (g *gen) wild() string {
	if g.Chance(0.01) { // a very long text
		return strings.Repeat(pick(g, []string{"zoo ", "1", "f", "00", "abandon\u3000", "/1", "x", "\u3042"}), 1000+g.Intn(6000))
	}
	switch g.Weighted(6, 2, 2, 1, 1, 1, 1) {
	case 0:
		return pick(g, wild)
	case 6: // kana
		s := ""
		for i := 1 + g.Intn(24); i > 0; i-- {
			s += string(rune(0x3000 + g.Intn(0x100)))
			if g.Chance(0.4) {
				s += pick(g, []string{" ", "\u3000"})
			}
		}
		return s
	case 1:
		return string(g.Bytes(1 + g.Intn(20))) // mostly not UTF-8
	case 2:
		v := g.value(g.Intn(5))
		if g.Chance(0.7) {
			v = core.Exotic(g.Rand, v)
		}
		return v
	case 3:
		return strings.Repeat(pick(g, wild), 1+g.Intn(60))
	case 4:
		return strings.Repeat(pick(g, []string{"zoo ", "1", "f", "m/", "/1", "x"}), 1+g.Intn(400))
	}
	// A long path: more components than the depth of a key can count.
	n := []int{10, 40, 254, 255, 256, 257, 300}[g.Intn(7)]
	if n > 100 && !g.Chance(0.3) {
		n = 12
	}
	return "m" + strings.Repeat("/1", n)
}

func (g *gen) dim() int {
	return []int{1, 2, 10, 63, 64, 65, 100, 300, 640, 800, 1600, 4000, 16000}[g.Intn(13)]
}

func (g *gen) closeStep() core.Step {
	s := core.Step{K: "close"}
	if g.Chance(0.4) {
		s.F = pick(g, []string{"lost the display", "EOF", "x"})
	}
	return s
}

func (g *gen) genAny() {
	switch g.Intn(4) {
	case 0:
		g.window(g.dim(), g.dim(), []int{100, 25, 50, 200, 400, 133}[g.Intn(6)])
	case 1:
		g.someWindow()
	case 2:
		g.window(1600, 1200, 100)
	}
	if g.Chance(0.02) { // closed before the first frame
		g.add(g.closeStep())
		return
	}
	if g.Chance(0.6) {
		g.fillKeys()
	}
	n := 3 + g.Intn(25)
	if g.thorough && g.Chance(0.2) {
		n += g.Intn(60)
	}
	for i := 0; i < n; i++ {
		switch g.Weighted(6, 5, 4, 4, 3, 3, 2, 2, 2, 1, 1, 1, 2, 2, 1) {
		case 0:
			s := g.edit(g.Intn(5))
			if g.Chance(0.02) { // a very long text of what belongs there
				s.S = strings.Repeat(pick(g, [][]string{{"zoo ", "abandon ", "a", "legal\u3000"}, {"x", "\u00e9", "pass "}, {"00", "f", "aB"}, {"x", "1", "xprv"}, {"/0", "/1'", "1"}}[s.A]), 500+g.Intn(9000))
				s.B = g.Intn(2)
			} else if g.Chance(0.6) {
				s.S = g.wild()
			} else if g.Chance(0.4) {
				s.S = core.Exotic(g.Rand, s.S)
			}
			if s.B == 6 && len(s.S) > 200 {
				s.S = s.S[:200]
			}
			g.add(s)
		case 1:
			s := core.Step{K: "click", S: pick(g, []string{"gen", "gen", "radio", "tab", "tab", "left", "right", "blank"}), A: g.Intn(8), B: g.Intn(4), C: g.Intn(2), D: g.Intn(3)}
			if s.S == "gen" {
				s.P = g.plan(0.4)
			}
			g.add(s)
		case 2:
			g.add(core.Step{K: "key", A: g.Intn(len(keyNames)), B: g.Weighted(5, 1, 2, 1, 1, 1, 1), C: g.Weighted(6, 1)})
		case 3:
			g.add(core.Step{K: "ptr", A: g.Intn(6), B: g.Intn(1000), C: g.Intn(1000), D: g.Weighted(5, 1, 1), MS: float64(g.Intn(400) - 200)})
		case 4:
			g.add(core.Step{K: "frame", A: g.Intn(3), MS: []float64{0, 1, 16, 500}[g.Intn(4)]})
		case 5:
			g.timing()
		case 6:
			g.add(core.Step{K: "text", S: g.wild()})
		case 7:
			g.add(core.Step{K: "ime", A: g.Intn(30), B: g.Intn(30), C: g.Intn(3), S: g.wild()})
		case 8:
			g.add(core.Step{K: "clip", S: g.wild(), F: pick(g, []string{"", "", "broken", "delayed"})})
			g.add(core.Step{K: "key", A: 17, B: 2})
		case 9:
			g.add(core.Step{K: "paste"})
		case 10:
			g.add(core.Step{K: "stage", A: g.Intn(3)})
		case 11:
			g.add(core.Step{K: "clickfocus"})
		case 12:
			g.add(core.Step{K: "resize", A: g.dim(), B: g.dim(), C: []int{0, 0, 100, 25, 300}[g.Intn(5)], D: []int{0, 0, 0, 20, 200}[g.Intn(5)]})
		case 13:
			if g.Chance(0.5) {
				g.fillKeys()
			} else {
				g.emptyKeys()
			}
		case 14:
			g.add(core.Step{K: "idle", A: g.Intn(2)})
		}
	}
	if g.Chance(0.35) { // close at any point
		k := g.Intn(len(g.sc.Steps) + 1)
		g.sc.Steps = append(g.sc.Steps[:k:k], g.closeStep())
		return
	}
	g.add(core.Step{K: "run", MS: 500})
}
