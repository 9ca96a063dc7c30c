package main

import (
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/mearaj/bips/zzverif/core"
	"github.com/mearaj/bips/zzverif/ref"
	"github.com/mearaj/bips/zzverif/simrt"
)

// gen draws a scenario. Arguments come from small per-run pools of equal and
// nearly equal values, so that concurrent calls meet on the same and on
// confusable arguments.
type gen struct {
	*simrt.Rand
	sc       *core.Scenario
	thorough bool
	wide     bool     // long runs with many different arguments
	focus    bool     // many pairs of values with equal hashes
	haul     bool     // a process that lives very long
	ents     []string // hex
	mns      []string
	passes   []string
	seeds    []string // hex
	idx      []uint32
	paths    []string
	listName string
	list     *ref.List
}

func pick[T any](g *gen, l []T) T { return l[g.Intn(len(l))] }

func (libSim) Gen(prop string, seed uint64, thorough bool) *core.Scenario {
	g := &gen{Rand: simrt.NewRand(seed), thorough: thorough}
	g.sc = &core.Scenario{Prop: prop, Seed: seed, Mode: "tasks"}
	g.listName = "English"
	g.list = refList("English")
	g.wide = g.Chance(0.02) && prop <= "C09"
	if g.Chance(0.004) {
		g.haul = true
		g.wide = prop <= "C09"
	}
	spot := g.Chance(0.15)
	defer func() { g.sc.Spot = spot && g.sc.Mode == "tasks" }()
	switch prop {
	case "C01", "C02", "C03":
		g.genRandomness(prop)
	case "C04":
		g.genCodec()
	case "C05":
		g.genSeeds()
	case "C06":
		g.genKeys()
	case "C07":
		g.genPaths()
	case "C08":
		g.genRender()
	case "C09":
		g.genMemory()
	case "C10":
		g.genRegistry()
	case "C11":
		g.genLists()
	case "C12":
		g.genStorage()
	case "C13":
		g.genNet()
	case "C14":
		g.genBackup()
	case "C25":
		g.genCoins()
	case "C26":
		g.genAnything()
	default:
		panic("libsim: no such property: " + prop)
	}
	return g.sc
}

// ---- schedules ----

func (g *gen) sched(est int) simrt.Spec {
	s := simrt.Spec{Seed: g.U64() >> 12}
	switch g.Weighted(8, 36, 22, 18, 16) {
	case 0:
		s.Kind = "seq"
	case 1:
		s.Kind = "rand"
		s.P = []float64{0.7, 0.3, 0.1, 0.03, 0.01}[g.Intn(5)]
	case 2:
		s.Kind = "pct"
		s.Depth = 1 + g.Intn(5)
		s.Len = est/2 + 1 + g.Intn(est+1)
	case 3:
		s.Kind = "site"
		s.Depth = 1 + g.Intn(12)
		s.P = []float64{1, 0.5, 0.2}[g.Intn(3)]
	case 4:
		s.Kind = "rr"
		s.Q = []int{1, 2, 3, 5, 7, 11, 23}[g.Intn(7)]
	}
	return s
}

// shape decides how many tasks run how many operations each.
func (g *gen) shape(cheap bool) (tasks, ops int) {
	if g.haul {
		n := 300 + g.Intn(500)
		if cheap {
			n = 1000 + g.Intn(2500)
		}
		if g.Chance(0.7) {
			return 1, n
		}
		return 2, n / 2
	}
	if cheap && g.wide {
		return 1 + g.Intn(2), 150 + g.Intn(500)
	}
	switch g.Weighted(45, 25, 15, 8, 7) {
	case 0:
		return 2, 1 + g.Intn(4)
	case 1:
		return 3 + g.Intn(3), 1 + g.Intn(4)
	case 2:
		return 2 + g.Intn(3), 4 + g.Intn(8)
	case 3:
		return 6 + g.Intn(6), 1 + g.Intn(2)
	}
	n := 20 + g.Intn(30)
	if cheap {
		n = 60 + g.Intn(200)
		if g.thorough && g.Chance(0.2) {
			n *= 4
		}
	}
	return 1 + g.Intn(2), n
}

// fill makes a phase from an operation generator.
func (g *gen) fill(tasks, ops, est int, op func() core.Op) core.Phase {
	if g.haul && g.Chance(0.8) {
		op = g.fewKinds(op)
	} else if g.Chance(0.35) {
		op = g.palette(op)
	}
	p := core.Phase{MapSeed: uint64(g.Intn(1 << 20)), Sched: g.sched(est * ops * tasks)}
	jumps := 0.0
	if g.Chance(0.15) {
		jumps = pick(g, []float64{0.02, 0.1, 0.3})
	}
	for i := 0; i < tasks; i++ {
		var t core.Task
		for j := 0; j < ops; j++ {
			if g.Chance(jumps) { // time passes, or the clock is set
				t.Ops = append(t.Ops, core.Op{K: "clock", N: pick(g, clockJumps) * (1 + g.Intn(3))})
			}
			o := op()
			if g.Chance(0.15) {
				o.Scrib |= 1
			}
			if g.Chance(0.1) {
				o.Scrib |= 2
			}
			t.Ops = append(t.Ops, o)
		}
		p.Tasks = append(p.Tasks, t)
	}
	return p
}

// clockJumps are in milliseconds.
var clockJumps = []int{1, 10, 100, 1000, 11_000, 61_000, 301_000, 3_601_000, 86_401_000, 366 * 86_400_000, -1000, -3_600_000, -86_400_000}

// fewKinds draws operations of a few kinds only.
func (g *gen) fewKinds(op func() core.Op) func() core.Op {
	kinds := map[string]bool{}
	for i := []int{1, 1, 1, 2, 3}[g.Intn(5)]; i > 0; i-- {
		kinds[op().K] = true
	}
	return func() core.Op {
		o := op()
		for i := 0; i < 30 && !kinds[o.K]; i++ {
			o = op()
		}
		return o
	}
}

// palette draws all operations from a few, and from ones that differ from
// them a little.
func (g *gen) palette(op func() core.Op) func() core.Op {
	var l []core.Op
	heavy := 12
	for i := 0; i < 1+g.Intn(3); i++ {
		l = append(l, op())
	}
	for i := g.Intn(3); i > 0; i-- {
		l = append(l, g.kinOp(pick(g, l)))
	}
	return func() core.Op {
		o := pick(g, l)
		switch o.K {
		case "crash", "regdump", "store", "mstore", "load", "mload":
			return op()
		case "seed", "seedchk", "dseed", "m2root":
			if heavy--; heavy < 0 {
				return op()
			}
		}
		if g.Chance(0.1) {
			return op()
		}
		return o
	}
}

// kinOp changes one argument of an operation a little.
func (g *gen) kinOp(o core.Op) core.Op {
	if o.K == "setlist" {
		return o
	}
	switch g.Intn(5) {
	case 0, 1:
		if o.S != "" {
			o.S = core.Kin(g.Rand, o.S)
		} else if o.I != 0 || o.K == "child" || o.K == "nchild" {
			o.I ^= 1 << g.Intn(32)
		}
		if o.K == "range" && o.J <= o.I || o.J > o.I+100 {
			o.J = o.I + 2
			if o.J < o.I {
				o.J = o.I
			}
		}
	case 2:
		if o.K == "seed" || o.K == "seedchk" || o.K == "dseed" || o.K == "m2root" {
			if n := len(o.S); n > 1 && g.Chance(0.3) { // the same text divided elsewhere
				j := n - 1 - g.Intn(min(n-1, 12))
				o.K, o.S, o.S2 = "seed", o.S[:j], o.S[j:]+o.S2
			} else {
				o.S2 = core.Kin(g.Rand, o.S2)
			}
		} else if o.H != "" {
			o.H = g.near(o.H)
		}
	case 3:
		if o.Key > 0 {
			o.Key = g.keyIx()
		} else if o.H != "" {
			b, _ := hex.DecodeString(o.H)
			if i, j := 0, len(b); j > 1 {
				i, j = g.Intn(j), g.Intn(j)
				b[i], b[j] = b[j], b[i]
			}
			o.H = hx(b)
		}
	case 4:
		if o.H != "" && o.K != "valpriv" && o.K != "expand" {
			b, _ := hex.DecodeString(o.H)
			switch g.Intn(3) {
			case 0:
				b = append(b, 0)
			case 1:
				b = append([]byte{0}, b...)
			case 2:
				b = b[:len(b)-len(b)/4]
			}
			o.H = hx(b)
		}
	}
	return o
}

// ---- values ----

func (g *gen) entropy() string {
	n := []int{16, 20, 24, 28, 32}[g.Intn(5)]
	b := g.Bytes(n)
	switch g.Weighted(55, 5, 5, 14, 7, 7, 7) {
	case 1:
		b = make([]byte, n)
	case 2:
		for i := range b {
			b[i] = 0xff
		}
	case 3:
		for i := 0; i < 1+g.Intn(n-1); i++ {
			b[i] = 0
		}
	case 4:
		for i := n - 1 - g.Intn(n-1); i < n; i++ {
			b[i] = 0
		}
	case 5:
		b = make([]byte, n)
		b[g.Intn(n)] = 1 << g.Intn(8)
	case 6:
		for i := range b {
			b[i] = b[0]
		}
	}
	return hx(b)
}

// near changes a hex value slightly.
func (g *gen) near(h string) string {
	b, _ := hex.DecodeString(h)
	core.Near(g.Rand, b)
	return hx(b)
}

// pairs draws how many pairs of values with equal hashes to bring in.
func (g *gen) pairs() int {
	if g.haul && g.Chance(0.4) {
		return 20 + g.Intn(60)
	}
	if g.Chance(0.12) {
		return 1 + g.Intn(3)
	}
	return 0
}

var passphrases = []string{"", "TREZOR", " ", "a", "password", "пароль", "\u3042\u3044", "\U0001f511", "mnemonic", "p\x00q", "\xff\xfe"}

func (g *gen) pass() string {
	switch g.Weighted(6, 3, 1) {
	case 0:
		return pick(g, passphrases)
	case 1:
		return hx(g.Bytes(1 + g.Intn(20)))
	}
	return strings.Repeat(pick(g, []string{"x", "long pass ", "0123456789"}), 1+g.Intn(40))
}

func mnOf(l *ref.List, h string) string {
	b, _ := hex.DecodeString(h)
	m, err := l.Mnemonic(b)
	if err != nil {
		panic("libsim: bad entropy " + h)
	}
	return m
}

// pools fills the entropy, mnemonic and passphrase pools.
func (g *gen) pools(n int) {
	if g.wide {
		n += 300
	}
	for i := 0; i < n; i++ {
		if i > 0 && g.Chance(0.3) {
			g.ents = append(g.ents, g.near(pick(g, g.ents)))
		} else {
			g.ents = append(g.ents, g.entropy())
		}
	}
	for n := g.pairs(); n > 0; n-- {
		i, j := core.Collide(g.Rand, "seed", "seedhex", "mn")
		g.ents = append(g.ents, hx(core.Seed16(i)), hx(core.Seed16(j)))
	}
	for _, e := range g.ents {
		g.mns = append(g.mns, mnOf(g.list, e))
	}
	for i := 0; i < 1+g.Intn(3); i++ {
		p := g.pass()
		if i > 0 && g.Chance(0.5) {
			p = core.Kin(g.Rand, pick(g, g.passes))
		}
		g.passes = append(g.passes, p)
	}
	if g.Chance(0.06) {
		i, j := core.Collide(g.Rand, "seedhex")
		g.passes = append(g.passes, hx(core.Seed16(i)), hx(core.Seed16(j)))
	}
}

// badMn damages a mnemonic so that it is (almost always) invalid.
func (g *gen) badMn(m string) string {
	if g.Chance(0.15) {
		return core.Exotic(g.Rand, m)
	}
	if g.Chance(0.1) {
		return core.Kin(g.Rand, m)
	}
	w := strings.Split(m, " ")
	n := len(w)
	switch g.Intn(10) {
	case 0:
		w[g.Intn(n)] = g.list.W[g.Intn(2048)]
	case 1:
		w[g.Intn(n)] = pick(g, []string{"zzz", "", "Abandon", "abandon1", "bitcoin", "ü"})
	case 2:
		w = w[:g.Intn(n)]
	case 3:
		w = append(w, g.list.W[g.Intn(2048)])
	case 4:
		i, j := g.Intn(n), g.Intn(n)
		w[i], w[j] = w[j], w[i]
	case 5:
		w[n-1] = g.list.W[g.Intn(2048)]
	case 6:
		w = append(w, w...)
	case 7:
		w = w[:n/3*3-3*g.Intn(2)]
		w[0] = g.list.W[g.Intn(2048)]
	case 8:
		return ""
	case 9:
		return pick(g, []string{" ", "\x00", "\xff\xff", "word", strings.Repeat("zoo ", 12), strings.Repeat("abandon ", 24), strings.Repeat("a ", 500)})
	}
	return strings.Join(w, " ")
}

// spaced changes only the whitespace between words.
func (g *gen) spaced(m string) string {
	w := strings.Split(m, " ")
	switch g.Intn(5) {
	case 0:
		return strings.Join(w, pick(g, spaces))
	case 1:
		i := 1 + g.Intn(len(w)-1)
		return strings.Join(w[:i], " ") + pick(g, spaces) + strings.Join(w[i:], " ")
	case 2:
		return pick(g, spaces) + m
	case 3:
		return m + pick(g, spaces)
	}
	return pick(g, spaces) + strings.Join(w, pick(g, spaces)) + pick(g, spaces)
}

func (g *gen) mn() string {
	m := pick(g, g.mns)
	switch g.Weighted(14, 4, 3) {
	case 1:
		return g.badMn(m)
	case 2:
		return g.spaced(m)
	}
	return m
}

// Scalars whose points have leading zero bytes in x, y or both, or whose
// hash160 has.
var oddScalars = []uint32{182, 538, 781, 202760, 303988, 331734, 1, 2, 3, 153, 246, 886, 1158, 122, 130, 533, 544, 44629, 58165, 63439, 41192, 394851, 55959, 62762, 166259}

// Seeds of the BIP-32 test vectors about leading zeros.
var oddSeeds = []string{
	"4b381541583be4423346c643850da4b320e46a87ae3d2a4e6da11eba819cd4acba45d239319ac14f863b8d5ab5a0d2d77cf6b1f0",
	"3ddd5602285899a946114506157c7997e5444528f3003f6134712147db19b678",
	"000102030405060708090a0b0c0d0e0f",
}

// oddChildren are indexes whose derivation from the master key of the last of
// oddSeeds meets one or two leading zero bytes in the intermediary key, the
// chain code, the private key, a coordinate or the hash160 of the child, or in
// the point that is added to the parent's.
var oddChildren = []uint32{1314, 158, 1844, 17346, 290076, 330494, 2147484679, 2147497669, 2147707719, 230, 2308, 152574, 159434, 199824,
	2147530839, 2147681555, 392, 408, 224972, 2147576243, 2147624235, 126, 1770, 594, 31054, 33366, 53298, 1066, 2468, 662, 112402,
	313018, 344038, 2147484109, 2147496403, 2147657447, 1084, 500, 107632, 174548, 216010, 2147726729, 402, 546, 231374, 271612, 2147565095}

const orderMinus1 = "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140"

// master draws a depth-0 private key.
func (g *gen) master() ref.Key {
	if g.Chance(0.2) {
		k, _ := ref.RootFromSeedHex(oddSeeds[g.Weighted(1, 1, 2)])
		return k
	}
	k, err := ref.MasterKey(g.Bytes(16 + 16*g.Intn(4)))
	if err != nil {
		return g.master()
	}
	switch g.Weighted(6, 2, 1, 1) {
	case 1: // special scalars
		for i := 46; i < 78; i++ {
			k[i] = 0
		}
		s := pick(g, oddScalars)
		k[75], k[76], k[77] = byte(s>>16), byte(s>>8), byte(s)
	case 2:
		b, _ := hex.DecodeString(orderMinus1)
		copy(k[46:], b)
	case 3: // short scalars
		for i := 0; i < 1+g.Intn(8); i++ {
			k[46+i] = 0
		}
		k[77] |= 1
	}
	if g.Chance(0.1) {
		for i := 13; i < 45; i++ {
			k[i] = 0
		}
	}
	if g.Chance(0.3) {
		k.SetVersion(pick(g, ref.PvtVersions))
	}
	return k
}

// anyKey draws an extended key of any kind.
func (g *gen) anyKey() ref.Key {
	k := g.master()
	if g.Chance(0.06) {
		k, _ = ref.RootFromSeedHex(oddSeeds[2])
		k, _ = k.Child(pick(g, oddChildren))
		if g.Chance(0.4) {
			k = k.Neuter()
		}
		return k
	}
	switch g.Weighted(5, 4, 3, 2) {
	case 1: // derived
		for i := 0; i < 1+g.Intn(3); i++ {
			if c, err := k.Child(g.index()); err == nil {
				k = c
			}
		}
	case 2: // arbitrary header
		k[4] = byte(g.Intn(256))
		if g.Chance(0.3) {
			k[4] = byte(252 + g.Intn(4))
		}
		copy(k[5:13], g.Bytes(8))
	case 3:
		k[4] = byte(1 + g.Intn(5))
		copy(k[5:13], g.Bytes(8))
	}
	if g.Chance(0.4) {
		k = k.Neuter()
		if g.Chance(0.06) {
			k.SetVersion(g.oddVersion())
		}
	} else if g.Chance(0.06) {
		k.SetVersion(g.oddVersion())
	}
	return k
}

// oddVersion draws version bytes that nobody registered.
func (g *gen) oddVersion() uint32 {
	for {
		v := g.U32()
		if g.Chance(0.5) {
			v = pick(g, ref.PvtVersions) ^ 1<<g.Intn(32)
		}
		_, ok := ref.PvtToPub[v]
		if !ok && !ref.PubRegistered[v] {
			return v
		}
	}
}

// twin returns a key that shares most of another's fields.
func (g *gen) twin(k ref.Key) ref.Key {
	switch g.Intn(8) {
	case 7: // same first or last bytes of the key and of the chain code
		lo, hi := 46, 78
		if !k.Private() || g.Chance(0.3) {
			lo, hi = 13, 45
		}
		t := k
		n := 1 + g.Intn(16)
		if g.Chance(0.5) {
			copy(t[lo+n:hi], g.Bytes(32-n))
		} else {
			copy(t[lo:hi-n], g.Bytes(32-n))
		}
		if t.Usable() {
			return t
		}
	case 0: // same key, other chain code
		copy(k[13:45], g.Bytes(32))
	case 1: // same chain code and header, other key
		o := g.master()
		if k.Private() {
			copy(k[46:], o[46:])
		} else {
			copy(k[45:], o.Pub())
		}
	case 2: // other network or script type
		if k.Private() {
			k.SetVersion(pick(g, ref.PvtVersions))
		} else {
			k.SetVersion(ref.PvtToPub[pick(g, ref.PvtVersions)])
		}
	case 3:
		k[4]++
	case 4:
		copy(k[5:13], g.Bytes(8))
	case 5:
		return k.Neuter()
	case 6: // sign of the public point, or one bit of the scalar
		if !k.Private() {
			k[45] ^= 1
		} else {
			t := k
			t[46+g.Intn(32)] ^= 1 << g.Intn(8)
			if t.Usable() {
				return t
			}
		}
	}
	return k
}

func (g *gen) addKeys(n int, f func() ref.Key) {
	np := g.pairs()
	if np > 10 {
		g.focus = true
	} else if g.wide && (g.haul || g.Chance(0.5)) {
		n += 100
		if g.haul && g.Chance(0.8) {
			n += 200 + g.Intn(2000)
		}
	}
	var l []ref.Key
	for i := 0; i < n; i++ {
		k := f()
		if i > 0 && g.Chance(0.4) {
			k = g.twin(pick(g, l))
			if !k.Usable() {
				k = f()
			}
		}
		l = append(l, k)
		g.sc.Keys = append(g.sc.Keys, k.Hex())
	}
	for ; np > 0; np-- {
		i, j := core.Collide(g.Rand, "key", "prv", "prvhex", "cc", "pub", "pubhex", "b58", "xpub", "xpub58")
		for _, x := range []uint32{i, j} {
			k, _ := ref.MasterKey(core.Seed16(x))
			g.sc.Keys = append(g.sc.Keys, k.Hex())
		}
	}
}

var oddIndexes = []uint32{0, 1, 2, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 255, 256, 65535, 65536, 44 | 1<<31, 49 | 1<<31}

func (g *gen) index() uint32 {
	switch g.Weighted(5, 3, 2, 2) {
	case 0:
		return pick(g, oddIndexes)
	case 1:
		return uint32(g.Intn(20))
	case 2:
		return pick(g, oddChildren)
	}
	return g.U32()
}

func (g *gen) indexPool(n int) {
	if g.wide && !(g.focus && g.Chance(0.8)) {
		n += 600
	}
	for i := 0; i < n; i++ {
		v := g.index()
		if i > 0 && g.Chance(0.4) {
			v = pick(g, g.idx) ^ 1<<g.Intn(32)
		}
		g.idx = append(g.idx, v)
	}
}

// ---- randomness (C01, C02, C03) ----

func (g *gen) plan(prop string) *core.ReadPlan {
	p := &core.ReadPlan{}
	if g.Chance(0.25) {
		return nil
	}
	fault := 0.5
	switch prop {
	case "C02":
		fault = 0.15
	case "C03":
		fault = 0.35
	}
	n := g.Intn(5)
	for i := 0; i < n; i++ {
		s := core.ReadStep{N: -1}
		switch g.Weighted(4, 3, 2, 1) {
		case 0:
			s.N = g.Intn(33)
		case 1:
			s.N = g.Intn(4)
		case 2:
			s.N = -1
		case 3:
			s.N = 1 + g.Intn(255)
		}
		if g.Chance(fault) {
			s.Err = pick(g, readErrNames)
			if g.Chance(0.4) {
				s.N = 0
			}
		}
		st := 0.1
		if prop == "C03" {
			st = 0.4
		}
		if g.Chance(st) {
			s.Stall = []int{-1, 5, 50, 400}[g.Intn(4)]
		}
		p.Steps = append(p.Steps, s)
	}
	switch {
	case g.Chance(fault * 0.5):
		p.Tail = "fail"
	case g.Chance(0.15):
		p.Tail = "one"
	}
	switch g.Weighted(14, 1, 1, 2) {
	case 1:
		p.Pat = "zero"
	case 2:
		p.Pat = "ff"
	case 3:
		p.Pat = fmt.Sprintf("lead%d", 1+g.Intn(8))
	}
	return p
}

func (g *gen) randomOp(prop string) core.Op {
	var o core.Op
	switch g.Weighted(4, 2, 4) {
	case 0:
		o = core.Op{K: "entropy", N: []int{128, 160, 192, 224, 256}[g.Intn(5)]}
		if g.Chance(0.05) {
			o.N = pick(g, []int{0, 127, 96, 288, 512, -128, 136, 1 << 40})
		}
	case 1:
		o = core.Op{K: "newseed"}
	case 2:
		o = core.Op{K: "genmn", N: []int{12, 15, 18, 21, 24}[g.Intn(5)]}
		if g.Chance(0.05) {
			o.N = pick(g, []int{0, 11, 13, 9, 27, 255})
		}
	}
	o.Plan = g.plan(prop)
	return o
}

func (g *gen) genRandomness(prop string) {
	g.pools(3)
	g.addKeys(2, g.anyKey)
	g.indexPool(3)
	g.pathPool(2)
	tasks, ops := g.shape(true)
	other := 0.1
	if prop == "C03" {
		other = 0.4
	}
	f := func() core.Op {
		if g.Chance(other) {
			return g.anyOp()
		}
		return g.randomOp(prop)
	}
	g.sc.Phases = append(g.sc.Phases, g.fill(tasks, ops, 150, f))
	if prop == "C03" && g.Chance(0.2) { // one caller has the word list to itself
		g.sc.Phases[0] = g.switching(tasks, ops, 150, func() core.Op {
			if g.Chance(0.3) {
				return g.listFreeOp()
			}
			o := g.randomOp(prop)
			for o.K == "genmn" {
				o = g.randomOp(prop)
			}
			return o
		})
	}
	if prop == "C01" && g.Chance(0.15) {
		p := g.fill(2, 2, 150, f)
		p.Restart = true
		g.sc.Phases = append(g.sc.Phases, p)
	}
	if prop == "C03" { // afterwards the source works again
		p := g.fill(2, 2, 150, func() core.Op {
			o := g.randomOp(prop)
			o.Plan = nil
			return o
		})
		g.sc.Phases = append(g.sc.Phases, p)
	}
}

// listFreeOp draws an operation that does not depend on the word list.
func (g *gen) listFreeOp() core.Op {
	for {
		if o := g.anyOp(); o.K != "mnem" && o.K != "ent" && o.K != "mba" && o.K != "mvalid" && o.K != "wix" && o.K != "wlist" {
			return o
		}
	}
}

// switching makes a phase in which one caller switches between word lists and
// uses them, while the others do what does not depend on the list.
func (g *gen) switching(tasks, ops, est int, other func() core.Op) core.Phase {
	p := g.fill(tasks, ops, est, other)
	names := []string{g.anyList(), g.anyList(), "English"}
	cur := "English"
	t := &p.Tasks[g.Intn(len(p.Tasks))]
	t.Ops = nil
	for i := 0; i < 1+ops; i++ {
		if g.Chance(0.4) {
			cur = pick(g, names)
			t.Ops = append(t.Ops, core.Op{K: "setlist", S: cur, Scrib: g.Intn(2)})
			continue
		}
		l := refList(cur)
		m := mnOf(l, pick(g, g.ents))
		if g.Chance(0.3) {
			m = mnOf(refList(pick(g, names)), pick(g, g.ents))
		}
		switch g.Intn(5) {
		case 0:
			t.Ops = append(t.Ops, core.Op{K: "mnem", H: pick(g, g.ents)})
		case 1:
			t.Ops = append(t.Ops, core.Op{K: "ent", S: m})
		case 2:
			t.Ops = append(t.Ops, core.Op{K: "mvalid", S: m})
		case 3:
			t.Ops = append(t.Ops, core.Op{K: "wix", S: pick(g, strings.Fields(m))})
		case 4:
			t.Ops = append(t.Ops, core.Op{K: "wlist"})
		}
	}
	return p
}

// anyOp draws a cheap operation that needs no randomness.
func (g *gen) anyOp() core.Op {
	switch g.Intn(6) {
	case 0:
		return g.codecOp()
	case 1:
		return g.keyOp()
	case 2:
		return g.renderOp()
	case 3:
		return g.pathOp(false)
	case 4:
		return core.Op{K: "deser", H: g.serialized(), Slack: g.slack()}
	}
	return core.Op{K: "coin", N: g.Intn(2000)}
}

// ---- codec (C04) ----

func (g *gen) slack() int {
	if g.Chance(0.5) {
		return 0
	}
	return []int{1, 4, 8, 32, 64}[g.Intn(5)]
}

func (g *gen) codecOp() core.Op {
	switch g.Weighted(5, 5, 4, 3, 3) {
	case 0:
		o := core.Op{K: "mnem", H: pick(g, g.ents), Slack: g.slack()}
		if g.Chance(0.06) {
			o.H = hx(g.Bytes(g.Intn(40)))
		}
		if len(g.sc.Bufs) > 0 && g.Chance(0.4) {
			o.Buf = 1 + g.Intn(len(g.sc.Bufs))
		}
		return o
	case 1:
		return core.Op{K: "ent", S: g.mn()}
	case 2:
		return core.Op{K: "mba", S: g.mn(), N: g.Intn(2), F: g.Chance(0.5)}
	case 3:
		return core.Op{K: "mvalid", S: g.mn()}
	}
	w := g.list.W[g.Intn(2048)]
	if g.Chance(0.4) {
		w = g.list.W[[]int{0, 1, 2, 2046, 2047, 1023, 1024}[g.Intn(7)]]
	}
	if g.Chance(0.2) {
		w = pick(g, []string{"", "zzzz", "Zoo", "zoo ", "aband", "\u00e1baco"})
	}
	return core.Op{K: "wix", S: w}
}

func (g *gen) genCodec() {
	if g.Chance(0.25) {
		g.listName = pick(g, ref.Lists).Name
		g.list = refList(g.listName)
	}
	g.pools(2 + g.Intn(5))
	for i := 0; i < 1+g.Intn(2); i++ {
		g.sc.Bufs = append(g.sc.Bufs, pick(g, g.ents))
		g.sc.Slack = append(g.sc.Slack, g.slack())
	}
	tasks, ops := g.shape(true)
	p := g.fill(tasks, ops, 250, g.codecOp)
	if g.listName != "English" {
		p.List = g.listName
	}
	g.sc.Phases = append(g.sc.Phases, p)
}

// ---- seeds (C05) ----

func (g *gen) seedHex() string {
	switch g.Weighted(6, 2, 2, 2) {
	case 1:
		return hx(g.Bytes(g.Intn(16)))
	case 2:
		if g.Chance(0.5) { // nearly well-formed
			s := hx(g.Bytes(16 + 16*g.Intn(4)))
			i := g.Intn(len(s) + 1)
			return pick(g, []string{"0x" + s, "0X" + s, " " + s, s + " ", s + "\n", "\t" + s + "\r\n", s + "0", s[1:], s + "h", "\ufeff" + s,
				"x'" + s + "'", "\"" + s + "\"", s[:i] + " " + s[i:], s[:i] + ":" + s[i:], s[:i] + "_" + s[i:], s[:i] + "g" + s[i:], s[:i] + "\x00" + s[i:],
				s + "zz", s + "x", "0x" + s[1:], s[:i] + "\uff10\uff10" + s[i:]})
		}
		return pick(g, []string{"", "0", "zz", "0x00", strings.Repeat("0", 31), strings.Repeat("0g", 16), strings.Repeat("00", 16), strings.Repeat("FF", 32), " " + strings.Repeat("00", 16)})
	case 3:
		return strings.ToUpper(hx(g.Bytes(64)))
	}
	return hx(g.Bytes(16 + g.Intn(60)))
}

func (g *gen) genSeeds() {
	g.pools(1 + g.Intn(3))
	if g.Chance(0.3) { // pairs that run together: (m, "x y") and (m + " x", "y")
		m := pick(g, g.mns)
		g.passes = append(g.passes, "mnemonic", m, strings.Split(m, " ")[0])
	}
	n := 1 + g.Intn(4)
	if g.wide {
		n += 300
	}
	for i := 0; i < n; i++ {
		s := g.seedHex()
		if i > 0 && g.Chance(0.4) && len(g.seeds[0]) > 1 {
			s = g.near(g.seeds[0])
		}
		g.seeds = append(g.seeds, s)
	}
	for i := 0; i < 2; i++ {
		g.sc.Bufs = append(g.sc.Bufs, hx(g.Bytes(16+g.Intn(49))))
		g.sc.Slack = append(g.sc.Slack, g.slack())
	}
	for n := g.pairs(); n > 0; n-- {
		i, j := core.Collide(g.Rand, "seed", "seedhex", "key", "prv", "pub", "b58")
		g.seeds = append(g.seeds, hx(core.Seed16(i)), hx(core.Seed16(j)))
		g.sc.Bufs = append(g.sc.Bufs, hx(core.Seed16(i)), hx(core.Seed16(j)))
		g.sc.Slack = append(g.sc.Slack, g.slack(), g.slack())
	}
	tasks, ops := g.shape(false)
	heavy := 14 // PBKDF2 takes milliseconds: keep it rare
	f := func() core.Op {
		w := 2
		if heavy > 0 {
			w = 8
		}
		switch g.Weighted(w, w, w, w/2, 5, 5) {
		case 0:
			heavy--
			return core.Op{K: "seed", S: g.mn(), S2: pick(g, g.passes)}
		case 1:
			heavy--
			return core.Op{K: "seedchk", S: g.mn(), S2: pick(g, g.passes)}
		case 2:
			heavy--
			return core.Op{K: "dseed", S: g.mn(), S2: pick(g, g.passes)}
		case 3:
			heavy--
			return core.Op{K: "m2root", S: g.mn(), S2: pick(g, g.passes)}
		case 4:
			o := core.Op{K: "master", H: hx(g.Bytes(16 + g.Intn(64))), Slack: g.slack()}
			if g.Chance(0.7) {
				o.Buf = 1 + g.Intn(len(g.sc.Bufs))
			}
			return o
		}
		return core.Op{K: "root", S: pick(g, g.seeds)}
	}
	if ops > 12 {
		heavy = 3
		f0 := f
		f = func() core.Op {
			o := f0()
			if heavy <= 0 && o.Buf == 0 && o.K != "master" && o.K != "root" {
				return core.Op{K: "root", S: pick(g, g.seeds)}
			}
			return o
		}
	}
	g.sc.Phases = append(g.sc.Phases, g.fill(tasks, ops, 120, f))
}

// ---- keys (C06) ----

func (g *gen) keyIx() int { return 1 + g.Intn(len(g.sc.Keys)) }

func (g *gen) keyOp() core.Op {
	switch g.Weighted(10, 3, 3, 3, 2, 2, 2, 2, 1, 1) {
	case 0:
		return core.Op{K: "child", Key: g.keyIx(), I: pick(g, g.idx)}
	case 1:
		return core.Op{K: "neuter", Key: g.keyIx()}
	case 2:
		return core.Op{K: "nchild", Key: g.keyIx(), I: pick(g, g.idx)}
	case 3:
		var v []uint32
		for i := 0; i < 1+g.Intn(4); i++ {
			v = append(v, pick(g, g.idx))
		}
		return core.Op{K: "chain", Key: g.keyIx(), V: v}
	case 4:
		return core.Op{K: "ser", Key: g.keyIx()}
	case 5:
		return core.Op{K: "b58", Key: g.keyIx()}
	case 6:
		return core.Op{K: "kget", Key: g.keyIx()}
	case 7:
		return core.Op{K: "kvalid", Key: g.keyIx()}
	case 8:
		return core.Op{K: "str", Key: g.keyIx()}
	}
	return core.Op{K: "setver", Key: g.keyIx(), I: g.U32(), F: g.Chance(0.5)}
}

func (g *gen) genKeys() {
	g.addKeys(1+g.Intn(4), g.anyKey)
	g.indexPool(1 + g.Intn(6))
	tasks, ops := g.shape(true)
	g.sc.Phases = append(g.sc.Phases, g.fill(tasks, ops, 60, g.keyOp))
}

// ---- paths (C07) ----

func (g *gen) path() string {
	var c []string
	m := "m"
	if g.Chance(0.15) {
		m = "M"
	}
	h := g.Intn(5)
	n := g.Intn(4)
	if g.Chance(0.03) {
		n = pick(g, []int{9, 17, 40})
		if g.Chance(0.15) {
			n = pick(g, []int{200, 253, 254, 255, 256, 257})
		}
	}
	for i := 0; i < h; i++ {
		c = append(c, fmt.Sprintf("%d'", pick(g, []uint32{0, 44, 49, 84, 1, 2147483647, g.U32() >> 1, uint32(g.Intn(100))})))
	}
	for i := 0; i < n; i++ {
		c = append(c, fmt.Sprint(pick(g, []uint32{0, 1, 2, uint32(g.Intn(100)), g.U32() >> 1, 2147483647, 2147483648, 4294967295, g.U32()})))
	}
	p := strings.Join(append([]string{m}, c...), "/")
	switch g.Weighted(14, 2, 2, 5) {
	case 1: // whitespace is ignored
		i := g.Intn(len(p) + 1)
		p = p[:i] + pick(g, []string{" ", "\t", "\n", "  "}) + p[i:]
	case 2: // leading zeros
		p = strings.Replace(p, "/", "/00", 1)
	case 3: // broken
		bad := []string{"", "/", "m/", "m//0", "n/0", "m/0/1'", "m/-1", "m/+1", "m/1.5", "m/a", "m/0x1", "m/4294967296", "m/2147483648'",
			"m/4294967295'", "m/4294967296'", "m/18446744073709551616", "m/99999999999999999999999", "m/4294967296/0", "m/44'/4294967297/1",
			"m/44''", "m/'", "m/0h", "m/0H", "0/1", "mm/0", "m/0/", "m0", "/m/0", "m/٣", "m/6442450988'/0'", "m/9223372036854775808"}
		p = pick(g, bad)
		if g.Chance(0.3) {
			// A component just outside the range in an otherwise good path.
			x := pick(g, []string{"/4294967296", "/4294967297", "/8589934592", "/6442450944", fmt.Sprintf("/%d", uint64(1)<<32*uint64(1+g.Intn(1000))+uint64(g.Intn(9)))})
			p = strings.Join(append([]string{m}, c[:min(h, len(c))]...), "/") + x
		}
	}
	return p
}

// verPath is a version entry that need not be registered.
func (g *gen) verPath() core.Op {
	c := func() string {
		v := pick(g, []string{"0", "1", "44", "49", "84", "141", "99999999", "100000000", "2147483647", "2147483648", "4294967295", "4294967340",
			"044", "", "-1", "+1", "1.5", "x", fmt.Sprint(g.Intn(1000)), fmt.Sprint(g.Intn(100000000))})
		switch g.Weighted(12, 1, 1) {
		case 0:
			v += "'"
		case 1:
			v += "''"
		}
		return v
	}
	p := pick(g, []string{"m", "m", "m", "m", "m", "M", "", "n"}) + "/" + c() + "/" + c()
	switch g.Weighted(12, 1, 1, 1, 1) {
	case 1:
		p += "/" + c()
	case 2:
		p = p[:strings.LastIndexByte(p, '/')]
	case 3:
		p = g.path()
	case 4:
		i := g.Intn(len(p) + 1)
		p = p[:i] + pick(g, []string{" ", "\t", "\n"}) + p[i:]
	}
	return core.Op{K: "verpath", S: p, I: g.index(), J: g.index()}
}

// coinOK is a coin that need not be registered, valid or nearly so.
func (g *gen) coinOK() core.Op {
	o := core.Op{K: "coinok", I: g.index() &^ ref.Hardened, S: pick(g, []string{"", " ", "Bitcoin", " x "}), S2: pick(g, []string{"", "\t", "BTC"})}
	o.J = o.I + ref.Hardened
	switch g.Weighted(5, 1, 1, 1, 1) {
	case 1:
		o.I, o.J = o.J, o.I
	case 2:
		o.J = o.I
	case 3:
		o.J ^= 1 << g.Intn(32)
	case 4:
		o.I, o.J = g.index(), g.index()
	}
	return o
}

func (g *gen) pathPool(n int) {
	for i := 0; i < n; i++ {
		p := g.path()
		if i > 0 && g.Chance(0.35) { // shares a prefix with another
			p = pick(g, g.paths)
			if g.Chance(0.5) {
				p += fmt.Sprintf("/%d", g.Intn(3))
			} else if j := strings.LastIndexByte(p, '/'); j > 0 {
				p = p[:j]
			}
		}
		g.paths = append(g.paths, p)
	}
	if g.Chance(0.05) {
		i, j := core.Collide(g.Rand, "path")
		g.paths = append(g.paths, core.Path16(i), core.Path16(j))
	}
}

func (g *gen) pathOp(derive bool) core.Op {
	p := pick(g, g.paths)
	w := 0
	if derive {
		w = 10
	}
	switch g.Weighted(w, w/2, w/3, 2, 3, 2, 2, 1) {
	case 0:
		return core.Op{K: "derive", Key: g.keyIx(), S: p}
	case 1:
		return core.Op{K: "derive1", Key: g.keyIx(), S: p, N: g.Weighted(1, 2)}
	case 2:
		o := core.Op{K: "range", Key: g.keyIx(), S: p, I: pick(g, g.idx), N: g.Weighted(2, 1)}
		switch g.Weighted(8, 1, 1, 1) {
		case 0:
			o.J = o.I + uint32(1+g.Intn(4))
		case 1:
			o.J = o.I
		case 2:
			o.J = o.I - uint32(g.Intn(5))
			if o.J > o.I {
				o.J = o.I
			}
		case 3:
			o.I = ref.Hardened - uint32(g.Intn(3))
			o.J = o.I + uint32(1+g.Intn(4))
		}
		return o
	case 3:
		return core.Op{K: "pvalid", S: p}
	case 4:
		return core.Op{K: "pvals", S: p}
	case 5:
		return core.Op{K: "pvalat", S: p, N: g.Intn(9)}
	case 6:
		o := core.Op{K: "prepl", S: p, N: g.Intn(9), I: pick(g, g.idx)}
		if n := strings.Count(p, "/"); n > 0 && g.Chance(0.6) {
			o.N = 1 + g.Intn(n)
			if o.N > 255 {
				o.N = 255
			}
		}
		if g.Chance(0.3) { // the first and last of each kind
			o.I = pick(g, []uint32{0, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff})
		}
		return o
	}
	return core.Op{K: "pstr", S: p, F: g.Chance(0.5)}
}

func (g *gen) genPaths() {
	g.indexPool(4)
	g.addKeys(1+g.Intn(3), func() ref.Key {
		if g.Chance(0.12) {
			return g.anyKey()
		}
		k := g.master()
		if g.Chance(0.06) {
			k.SetVersion(g.oddVersion())
		}
		return k
	})
	if g.Chance(0.05) {
		g.sc.Keys[0] = strings.Repeat("00", 78)
	}
	g.pathPool(1 + g.Intn(5))
	tasks, ops := g.shape(false)
	g.sc.Phases = append(g.sc.Phases, g.fill(tasks, ops, 150, func() core.Op { return g.pathOp(true) }))
}

// ---- rendering (C08) ----

func (g *gen) renderOp() core.Op {
	switch g.Weighted(5, 5, 4, 2, 2, 2, 2, 2, 2, 1, 1) {
	case 0:
		return core.Op{K: "addrhex", Key: g.keyIx()}
	case 1:
		return core.Op{K: "addrb58", Key: g.keyIx(), N: pick(g, []int{0, 5, 111, 196, 30, 48, 255, 1, g.Intn(256), g.Intn(256)})}
	case 2:
		return core.Op{K: "pubhex", Key: g.keyIx()}
	case 3:
		return core.Op{K: "pvthex", Key: g.keyIx()}
	case 4:
		return core.Op{K: "neuter", Key: g.keyIx()}
	case 5:
		return core.Op{K: "b58", Key: g.keyIx()}
	case 6, 7, 8:
		o := core.Op{K: pick(g, []string{"hash160", "cksum", "addck"}), H: hx(g.Bytes(g.Intn(90))), Slack: g.slack()}
		if len(g.sc.Bufs) > 0 && g.Chance(0.5) {
			o.Buf = 1 + g.Intn(len(g.sc.Bufs))
		}
		return o
	case 9:
		k := refKey(pick(g, g.sc.Keys))
		return core.Op{K: "expand", H: hx(k.Pub()), Slack: g.slack()}
	}
	k := refKey(pick(g, g.sc.Keys))
	h := hx(k[46:78])
	if g.Chance(0.4) {
		h = pick(g, []string{strings.Repeat("0", 64), orderMinus1, "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141",
			"fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364142", strings.Repeat("f", 64), strings.Repeat("0", 63) + "1"})
	}
	return core.Op{K: "valpriv", H: h}
}

func (g *gen) genRender() {
	g.addKeys(1+g.Intn(4), g.anyKey)
	for i := 0; i < 2; i++ {
		g.sc.Bufs = append(g.sc.Bufs, hx(g.Bytes(g.Intn(90))))
		g.sc.Slack = append(g.sc.Slack, g.slack())
	}
	tasks, ops := g.shape(true)
	g.sc.Phases = append(g.sc.Phases, g.fill(tasks, ops, 60, g.renderOp))
}

// ---- caller memory (C09) ----

// serialized is a record, most of the time well-formed.
func (g *gen) serialized() string {
	k := refKey(pick(g, g.sc.Keys))
	b, err := k.Serialize()
	if err != nil {
		return hx(k[:])
	}
	switch g.Weighted(5, 2, 1, 1) {
	case 1:
		b = b[:g.Intn(len(b))]
	case 2:
		b = append(b, g.Bytes(1+g.Intn(10))...)
	case 3:
		b[g.Intn(len(b))] ^= 1 << g.Intn(8)
	}
	return hx(b)
}

func (g *gen) genMemory() {
	g.pools(3)
	g.addKeys(2, g.anyKey)
	g.indexPool(3)
	g.pathPool(2)
	for i := 0; i < 1+g.Intn(4); i++ {
		switch g.Intn(4) {
		case 0:
			g.sc.Bufs = append(g.sc.Bufs, pick(g, g.ents))
		case 1:
			g.sc.Bufs = append(g.sc.Bufs, g.serialized())
		case 2:
			g.sc.Bufs = append(g.sc.Bufs, hx(g.Bytes(16+g.Intn(60))))
		case 3:
			g.sc.Bufs = append(g.sc.Bufs, hx(g.Bytes(g.Intn(20))))
		}
		g.sc.Slack = append(g.sc.Slack, g.slack())
	}
	buf := func(k string) core.Op {
		o := core.Op{K: k, Buf: 1 + g.Intn(len(g.sc.Bufs))}
		if g.Chance(0.3) {
			o.Buf = 0
			o.Slack = g.slack()
			switch k {
			case "mnem":
				o.H = pick(g, g.ents)
			case "deser":
				o.H = g.serialized()
			default:
				o.H = hx(g.Bytes(16 + g.Intn(60)))
			}
		}
		return o
	}
	tasks, ops := g.shape(true)
	seeds := 3
	p := g.fill(tasks, ops, 100, func() core.Op {
		var o core.Op
		switch g.Weighted(4, 6, 3, 2, 2, 4, 3, 2, 2, 2, 2, 2, 1, 1) {
		case 11:
			o = g.randomOp("C01")
		case 12:
			k := g.anyKey()
			o = core.Op{K: "expand", H: hx(k.Pub()), Slack: g.slack()}
		case 13:
			if seeds--; seeds < 0 || g.Chance(0.7) {
				o = buf("cksum")
				break
			}
			o = core.Op{K: pick(g, []string{"seed", "seedchk"}), S: pick(g, g.mns), S2: "p"}
		case 0:
			o = buf("mnem")
		case 1:
			o = buf("deser")
		case 2:
			o = buf("master")
		case 3:
			o = buf("hash160")
		case 4:
			o = buf("cksum")
		case 5:
			o = buf("addck")
		case 6:
			o = core.Op{K: pick(g, []string{"ser", "kget", "neuter", "b58"}), Key: g.keyIx()}
		case 7:
			o = core.Op{K: "child", Key: g.keyIx(), I: pick(g, g.idx)}
		case 8:
			o = core.Op{K: pick(g, []string{"ent", "mba"}), S: pick(g, g.mns), N: g.Intn(2), F: g.Chance(0.5)}
		case 9:
			o = core.Op{K: pick(g, []string{"derive", "derive1"}), Key: g.keyIx(), S: pick(g, g.paths), N: g.Intn(2)}
		case 10:
			o = core.Op{K: pick(g, []string{"wlist", "pvals", "range", "range", "root"}), S: pick(g, g.paths), Key: g.keyIx(), I: uint32(g.Intn(2)), J: 2, N: g.Intn(2)}
			if o.K == "root" {
				o.S = hx(g.Bytes(32))
			}
		}
		if o.Buf > 0 {
			o.Scrib = 0
		}
		if g.Chance(0.5) {
			o.Scrib |= 1
		}
		if g.Chance(0.4) {
			o.Scrib |= 2
		}
		return o
	})
	if g.Chance(0.3) {
		p.List = pick(g, []string{"rev:English", "rot5:English", "English"})
		p.Scrib = true
		g.relist(p.List, &p)
	}
	g.sc.Phases = append(g.sc.Phases, p)
}

// relist re-encodes the mnemonics of a phase for another list.
func (g *gen) relist(name string, p *core.Phase) {
	l := refList(name)
	for i := range p.Tasks {
		for j := range p.Tasks[i].Ops {
			o := &p.Tasks[i].Ops[j]
			if o.K == "ent" || o.K == "mba" {
				o.S = mnOf(l, pick(g, g.ents))
			}
		}
	}
}

// ---- registries and restarts (C10) ----

func (g *gen) genRegistry() {
	g.addKeys(2+g.Intn(3), func() ref.Key {
		k := g.anyKey()
		if k.Private() {
			k.SetVersion(pick(g, ref.PvtVersions))
		} else {
			k.SetVersion(ref.PvtToPub[pick(g, ref.PvtVersions)])
		}
		return k
	})
	g.indexPool(3)
	g.pathPool(2)
	n := 1 + g.Intn(4)
	for i := 0; i < n; i++ {
		tasks, ops := 1+g.Intn(4), 1+g.Intn(6)
		if g.haul {
			tasks, ops = g.shape(true)
		}
		dumps := 1
		p := g.fill(tasks, ops, 60, func() core.Op {
			switch g.Weighted(8, 8, 10, 2, 1, 1) {
			case 4:
				return g.verPath()
			case 5:
				return g.coinOK()
			case 0:
				return core.Op{K: "reglook", N: g.Intn(1000)}
			case 1:
				return core.Op{K: "coin", N: g.Intn(4000)}
			case 3:
				if dumps > 0 {
					dumps--
					return core.Op{K: "regdump"}
				}
			}
			return g.keyOp()
		})
		p.Restart = i > 0
		p.MapSeed = g.U64() >> 16
		if i < n-1 && g.Chance(0.5) {
			t := &p.Tasks[g.Intn(len(p.Tasks))]
			t.Ops = append(t.Ops, core.Op{K: "crash"})
		}
		g.sc.Phases = append(g.sc.Phases, p)
	}
}

// ---- word lists (C11) ----

func (g *gen) anyList() string {
	base := pick(g, ref.Lists).Name
	if g.Chance(0.4) {
		base = "English"
	}
	switch g.Weighted(6, 1, 2, 2) {
	case 1:
		return "rev:" + base
	case 2:
		return fmt.Sprintf("rot%d:%s", 1+g.Intn(5), base)
	case 3:
		return fmt.Sprintf("perm%d:%s", g.Intn(6), base)
	}
	return base
}

func (g *gen) genLists() {
	g.addKeys(2, g.anyKey)
	g.indexPool(2)
	g.pathPool(2)
	g.pools(1)
	var names []string
	for i := 0; i < 1+g.Intn(3); i++ {
		names = append(names, g.anyList())
	}
	names = append(names, "English")
	for i := 0; i < 3; i++ {
		g.ents = append(g.ents, g.entropy())
	}
	var few []string // words that are looked up again and again
	for i := 0; i < 2+g.Intn(4); i++ {
		few = append(few, refList(pick(g, names)).W[g.Intn(2048)])
	}
	n := 2 + g.Intn(5)
	if g.haul { // many switches in one life of the process
		n = 40 + g.Intn(80)
	}
	cur := "English"
	for i := 0; i < n; i++ {
		restart := i > 0 && !g.haul && g.Chance(0.15)
		set := ""
		if restart {
			cur = "English"
		}
		if g.Chance(0.75) {
			set = pick(g, names)
			cur = set
		}
		l := refList(cur)
		other := refList(pick(g, names))
		word := func() string {
			if g.Chance(0.4) {
				return pick(g, few)
			}
			x := l
			if g.Chance(0.4) {
				x = other
			}
			return x.W[g.Intn(2048)]
		}
		tasks, ops := 1+g.Intn(3), 1+g.Intn(4)
		p := g.fill(tasks, ops, 250, func() core.Op {
			mn := func() string {
				x := l
				if g.Chance(0.35) {
					x = other
				}
				m := mnOf(x, pick(g, g.ents))
				if g.Chance(0.15) { // mixed languages
					w := strings.Split(m, " ")
					w[g.Intn(len(w))] = word()
					m = strings.Join(w, " ")
				}
				return m
			}
			switch g.Weighted(4, 4, 2, 2, 4, 2, 2, 1) {
			case 0:
				return core.Op{K: "mnem", H: pick(g, g.ents)}
			case 1:
				return core.Op{K: "ent", S: mn()}
			case 2:
				return core.Op{K: "mba", S: mn(), N: g.Intn(2)}
			case 3:
				return core.Op{K: "mvalid", S: mn()}
			case 4:
				return core.Op{K: "wix", S: word()}
			case 5:
				return core.Op{K: "wlist"}
			case 6:
				return core.Op{K: "genmn", N: 12 + 3*g.Intn(5)}
			}
			if g.Chance(0.7) {
				return core.Op{K: "wix", S: word()}
			}
			return core.Op{K: "dseed", S: mn(), S2: "p"}
		})
		if g.Chance(0.15) { // switching goes on while others work
			p = g.switching(2+g.Intn(2), 2+g.Intn(6), 250, func() core.Op {
				if g.Chance(0.3) {
					return core.Op{K: "entropy", N: 128 + 32*g.Intn(5)}
				}
				return g.listFreeOp()
			})
			for _, t := range p.Tasks {
				for _, o := range t.Ops {
					if o.K == "setlist" {
						cur = o.S
					}
				}
			}
		} else if !g.haul && g.Chance(0.3) { // and while they use it
			t := &p.Tasks[g.Intn(len(p.Tasks))]
			for j := range t.Ops {
				if j == 0 || g.Chance(0.3) {
					cur = pick(g, names)
					t.Ops[j] = core.Op{K: "setlist", S: cur, Scrib: g.Intn(2)}
				}
			}
			p.Storm = true
		}
		p.Restart, p.List = restart, set
		p.Scrib = set != "" && g.Chance(0.25)
		if g.Chance(0.1) {
			t := &p.Tasks[g.Intn(len(p.Tasks))]
			t.Ops = append(t.Ops, core.Op{K: "crash"})
			g.sc.Phases = append(g.sc.Phases, p)
			q := g.fill(1, 2, 250, func() core.Op { return core.Op{K: "wix", S: refList("English").W[g.Intn(2048)]} })
			q.Restart = true
			cur = "English"
			p = q
		}
		g.sc.Phases = append(g.sc.Phases, p)
	}
}

// usesList: the result of the operation depends on the active word list.
func usesList(k string) bool {
	switch k {
	case "mnem", "ent", "mba", "mvalid", "wix", "wlist", "genmn", "seedchk", "dseed", "m2root":
		return true
	}
	return false
}

// ---- storage (C12) ----

func (g *gen) recordFault(b58 bool) string {
	var l []string
	for i := 0; i < 1+g.Intn(2); i++ {
		n := 82
		if b58 {
			n = 112
		}
		switch g.Weighted(6, 3, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2) {
		case 0:
			l = append(l, fmt.Sprintf("flip:%d", g.Intn(8*n)))
		case 1:
			l = append(l, fmt.Sprintf("trunc:%d", g.Intn(n)))
		case 2:
			l = append(l, "ext:"+hx(g.Bytes(1+g.Intn(4))))
		case 3:
			l = append(l, fmt.Sprintf("zero:%d:%d", g.Intn(n), 1+g.Intn(20)))
		case 4:
			l = append(l, fmt.Sprintf("dup:%d:%d", g.Intn(n), 1+g.Intn(20)))
		case 5:
			l = append(l, fmt.Sprintf("swap:%d:%d", g.Intn(5), g.Intn(5)))
		case 6:
			l = append(l, fmt.Sprintf("ins:%d:%d", g.Intn(n+1), pick(g, []int{'1', '0', ' ', '\n', 'a', 'l', 'O', 0, 255})))
		case 7:
			l = append(l, fmt.Sprintf("del:%d", g.Intn(n)))
		case 8:
			l = append(l, fmt.Sprintf("splice:%d:%d", g.Intn(4), g.Intn(n)))
		case 9:
			if b58 {
				l = append(l, fmt.Sprintf("case:%d", g.Intn(n)))
			} else {
				l = append(l, fmt.Sprintf("set:%d:%d", g.Intn(n), g.Intn(256)))
			}
		case 10:
			l = append(l, pick(g, []string{"pre:31", "pre:00", "pre:20", "ext:0a", "ext:20", "ext:00", "ext:31"}))
		case 11:
			l = append(l, fmt.Sprintf("tail:%d", 1+g.Intn(8)))
		}
	}
	return strings.Join(l, ",")
}

func (g *gen) genStorage() {
	g.addKeys(2+g.Intn(3), g.anyKey)
	g.pools(2)
	g.indexPool(2)
	g.pathPool(1)
	n := 1 + g.Intn(3)
	for i := 0; i < n; i++ {
		tasks, ops := 1+g.Intn(4), 2+g.Intn(6)
		if g.Chance(0.06) {
			tasks, ops = 1, 80+g.Intn(100)
		}
		if g.haul {
			tasks, ops = g.shape(true)
			n = i + 1
		}
		p := g.fill(tasks, ops, 60, func() core.Op {
			slot := g.Intn(4)
			b58 := g.sc.Seed>>uint(slot)&1 == 0 // the format of a slot is fixed
			switch g.Weighted(6, 12, 2, 1) {
			case 0:
				o := core.Op{K: "store", Key: g.keyIx(), N: slot, F: b58}
				if g.Chance(0.06) {
					o.S2 = fmt.Sprintf("misdir:%d", g.Intn(4))
				}
				if g.Chance(0.3) {
					o.J = 1 // not synced
				}
				return o
			case 1:
				o := core.Op{K: "load", N: slot, F: b58, Slack: g.slack()}
				if g.Chance(0.6) {
					o.S2 = g.recordFault(b58)
				}
				if g.Chance(0.3) {
					o.I = uint32(1 + g.Intn(40))
				}
				return o
			case 2:
				if g.Chance(0.5) {
					k := refKey(pick(g, g.sc.Keys))
					return core.Op{K: "b58deser", S: g.dam58(k.B58())}
				}
				return core.Op{K: "deser", H: g.serialized(), Slack: g.slack()}
			}
			return g.keyOp()
		})
		p.Restart = i > 0
		// Begin with something to read.
		if i == 0 {
			var pre core.Task
			for s := 0; s < 4; s++ {
				pre.Ops = append(pre.Ops, core.Op{K: "store", Key: g.keyIx(), N: s, F: g.sc.Seed>>uint(s)&1 == 0})
			}
			if g.Chance(0.7) {
				p.Tasks = append([]core.Task{pre}, p.Tasks...)
			}
		}
		if i < n-1 && g.Chance(0.6) {
			t := &p.Tasks[g.Intn(len(p.Tasks))]
			k := g.Intn(len(t.Ops) + 1)
			t.Ops = append(t.Ops[:k:k], append([]core.Op{{K: "crash"}}, t.Ops[k:]...)...)
		}
		g.sc.Phases = append(g.sc.Phases, p)
	}
}

func (g *gen) dam58(s string) string {
	if s == "" {
		return "1"
	}
	b := []byte(s)
	switch g.Intn(6) {
	case 0:
		b[g.Intn(len(b))] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"[g.Intn(58)]
	case 1:
		i := g.Intn(len(b))
		b = append(b[:i], b[i+1:]...)
	case 2:
		i, j := g.Intn(len(b)), g.Intn(len(b))
		b[i], b[j] = b[j], b[i]
	case 3:
		return pick(g, []string{" ", "1", "", "\n", "x"}) + s
	case 4:
		return s + pick(g, []string{" ", "1", "\n", "x", "0"})
	}
	return string(b)
}

// ---- network (C13) ----

func (g *gen) genNet() {
	g.sc.Mode = "net"
	n := 3 + g.Intn(3)
	g.addKeys(1+g.Intn(4), func() ref.Key {
		k := g.master()
		switch g.Weighted(6, 2, 1) {
		case 0: // a real account
			for _, v := range []uint32{pick(g, []uint32{44, 49, 84}) | 1<<31, uint32(g.Intn(3)) | 1<<31, uint32(g.Intn(4)) | 1<<31} {
				if c, err := k.Child(v); err == nil {
					k = c
				}
			}
		case 1:
			k[4] = byte(g.Intn(256))
		case 2:
			k[4] = byte(251 + g.Intn(5))
		}
		if g.Chance(0.06) {
			k.SetVersion(g.oddVersion())
		}
		return k
	})
	if d := len(g.sc.Keys) - nSlots; d > 0 { // a node's disk holds so many accounts
		g.sc.Keys = g.sc.Keys[d:]
	}
	for i := range g.sc.Keys { // twins may have been neutered
		k := refKey(g.sc.Keys[i])
		for !k.Private() {
			k = g.master()
		}
		g.sc.Keys[i] = k.Hex()
	}
	base := pick(g, []int{0, 0, 1, 1000, 1<<31 - 10})
	g.sc.Ints = map[string]int{"nodes": n, "mapseed": g.Intn(1 << 20), "final": 2 + g.Intn(3), "base": base}
	t := 0.0
	add := func(s core.Step) {
		t += float64(g.Intn(40))
		s.MS = t
		g.sc.Steps = append(g.sc.Steps, s)
	}
	rate := []float64{0, 0.15, 0.3, 0.6}[g.Intn(4)]
	fault := func() string {
		var l []string
		if !g.Chance(rate) {
			return ""
		}
		switch g.Weighted(2, 3, 3, 5) {
		case 0:
			l = append(l, "drop")
		case 1:
			l = append(l, "dup")
		case 2:
			l = append(l, fmt.Sprintf("late:%d", g.Intn(500)))
		case 3:
			l = append(l, g.recordFault(true))
		}
		return strings.Join(l, ",")
	}
	steps := 10 + g.Intn(40)
	for i := 0; i < steps; i++ {
		A, B, a := 1+g.Intn(n-1), 0, g.Intn(len(g.sc.Keys))
		if g.Chance(0.3) {
			B = g.Intn(n)
		}
		switch g.Weighted(10, 8, 1, 1, 2, 3, 1) {
		case 0:
			add(core.Step{K: "send", A: A, B: B, C: a, D: 1 + g.Intn(60), F: fault()})
		case 1:
			x := fmt.Sprint(base + g.Intn(8))
			switch g.Weighted(5, 2, 1, 1) {
			case 1:
				x = fmt.Sprintf("%d/%s", g.Intn(2), x)
			case 2:
				x = fmt.Sprint(uint32(1)<<31 + uint32(g.Intn(3)))
			case 3:
				x = fmt.Sprintf("%d/%d/%d", g.Intn(1<<31), 1<<31-1, g.Intn(3))
			}
			add(core.Step{K: "use", A: g.Intn(n), C: a, S: x})
		case 2:
			add(core.Step{K: "part", A: A, B: B})
		case 3:
			add(core.Step{K: "heal", A: A, B: B})
		case 4:
			add(core.Step{K: "crash", A: g.Intn(n)})
		case 5:
			add(core.Step{K: "restart", A: g.Intn(n)})
		case 6:
			add(core.Step{K: "media", A: A, C: a, F: g.recordFault(a%2 == 0)})
		}
	}
}

// ---- mnemonic backups (C14) ----

func (g *gen) wordFault() string {
	var l []string
	for i := 0; i < 1+g.Intn(2); i++ {
		switch g.Weighted(2, 2, 3, 3, 2, 1, 3, 5, 3, 2, 3, 1, 1, 1, 4, 1, 1, 2) {
		case 0:
			l = append(l, fmt.Sprintf("wdel:%d", g.Intn(24)))
		case 1:
			l = append(l, fmt.Sprintf("wdup:%d", g.Intn(24)))
		case 2:
			l = append(l, fmt.Sprintf("wswap:%d:%d", g.Intn(24), g.Intn(24)))
		case 3:
			l = append(l, fmt.Sprintf("wrep:%d:0:%s", g.Intn(24), g.list.W[g.Intn(2048)]))
		case 4:
			l = append(l, fmt.Sprintf("wtrunc:%d", pick(g, []int{12, 15, 18, 21, 11, 1, 0, 23})))
		case 5:
			l = append(l, fmt.Sprintf("wcat:%d", g.Intn(24)))
		case 6:
			l = append(l, fmt.Sprintf("char:%d:%d", g.Intn(24), g.Intn(8)))
		case 7:
			l = append(l, fmt.Sprintf("ws:%d:%d", g.Intn(24), g.Intn(len(spaces))))
		case 8:
			l = append(l, fmt.Sprintf("wsall:%d", g.Intn(len(spaces))))
		case 9:
			l = append(l, fmt.Sprintf("lead:%d", g.Intn(len(spaces))))
		case 10:
			l = append(l, fmt.Sprintf("trail:%d", g.Intn(len(spaces))))
		case 11:
			l = append(l, fmt.Sprintf("upper:%d", g.Intn(24)))
		case 12:
			l = append(l, fmt.Sprintf("abbr:%d", g.Intn(24)))
		case 13:
			l = append(l, fmt.Sprintf("trunc:%d", g.Intn(100)))
		case 14:
			l = append(l, fmt.Sprintf("mark:%d:%d", g.Intn(96), g.Intn(len(marks))))
		case 15:
			l = append(l, fmt.Sprintf("marks:%d:%d", g.Intn(len(marks)), g.Intn(4)))
		case 16:
			l = append(l, fmt.Sprintf("number:%d", g.Intn(5)))
		case 17:
			l = append(l, fmt.Sprintf("exotic:%d:%d", g.Intn(24), g.Intn(1000)))
		}
	}
	return strings.Join(l, ",")
}

func (g *gen) genBackup() {
	if g.Chance(0.3) {
		g.listName = pick(g, ref.Lists).Name
		g.list = refList(g.listName)
	}
	g.pools(1 + g.Intn(3))
	heavy := 3
	n := 1 + g.Intn(3)
	for i := 0; i < n; i++ {
		tasks, ops := 1+g.Intn(3), 1+g.Intn(6)
		if g.haul {
			tasks, ops = g.shape(false)
			ops *= 1 + g.Intn(2)
			n = i + 1
		}
		p := g.fill(tasks, ops, 500, func() core.Op {
			slot := g.Intn(3)
			switch g.Weighted(2, 8) {
			case 0:
				o := core.Op{K: "mstore", H: pick(g, g.ents), N: slot}
				if g.Chance(0.3) {
					o.J = 1
				}
				return o
			}
			o := core.Op{K: "mload", N: slot, S: pick(g, g.passes)}
			if g.Chance(0.7) {
				o.S2 = g.wordFault()
			}
			if g.Chance(0.2) {
				o.I = uint32(1 + g.Intn(40))
			}
			if heavy > 0 && g.Chance(0.35) {
				heavy--
				o.F = true
			}
			return o
		})
		p.Restart = i > 0
		if g.listName != "English" {
			p.List = g.listName
		}
		if i == 0 {
			var pre core.Task
			for s := 0; s < 3; s++ {
				pre.Ops = append(pre.Ops, core.Op{K: "mstore", H: pick(g, g.ents), N: s})
			}
			p.Tasks = append([]core.Task{pre}, p.Tasks...)
		}
		if i < n-1 && g.Chance(0.5) {
			t := &p.Tasks[g.Intn(len(p.Tasks))]
			k := g.Intn(len(t.Ops) + 1)
			t.Ops = append(t.Ops[:k:k], append([]core.Op{{K: "crash"}}, t.Ops[k:]...)...)
		}
		g.sc.Phases = append(g.sc.Phases, p)
	}
}
