package main

import (
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/mearaj/bips/zzverif/core"
	"github.com/mearaj/bips/zzverif/ref"
	"github.com/mearaj/bips/zzverif/simrt"
)

// ---- every call comes to an end (C26) ----

// wildText is what a caller may get from outside in place of s.
func (g *gen) wildText(s string) string {
	switch g.Intn(12) {
	case 0, 1, 2:
		return core.Kin(g.Rand, s)
	case 3:
		return core.Exotic(g.Rand, s)
	case 4: // part of it
		i := g.Intn(len(s) + 1)
		j := i + g.Intn(len(s)-i+1)
		return s[i:j]
	case 5: // bytes that are no text
		b := []byte(s)
		for i := g.Intn(3); i >= 0; i-- {
			k := g.Intn(len(b) + 1)
			b = append(b[:k:k], append([]byte{byte(g.U64())}, b[k:]...)...)
		}
		return string(b)
	case 6:
		return string(g.Bytes(g.Intn(40)))
	case 7:
		u := pick(g, []string{"a", " ", "/", "m", "1", "0", "z", "'", "/0", "/0'", "abandon ", "zoo ", "\x00", "\xff", "\u3000", "f", "あ", "\u0301", "9", "-", "\n"})
		n := pick(g, []int{1, 2, 3, 11, 12, 13, 24, 25, 63, 64, 65, 128, 129, 255, 256, 257, 600, 2500})
		w := strings.Repeat(u, n)
		if g.Chance(0.5) {
			return s + w
		}
		return w
	case 8:
		return pick(g, []string{"", " ", "\x00", "m", "M", "/", "'", "m/", "m/'", "m'", "//", "0x", "xprv", "xpub", "\ufeff", "\u2028", "\U0010ffff", "-1", "+1", "1e9", "NaN", "%s%n", "\r\n"})
	case 9: // twice
		return s + pick(g, []string{"", " ", "/", "\n"}) + s
	case 10:
		return pick(g, []string{" ", "\t", "\n", "\u3000", "\u00a0"}) + s + pick(g, []string{" ", "\t", "\n", "\u3000"})
	}
	w := strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == '/' })
	if len(w) > 0 { // other parts, in number and length
		k := g.Intn(len(w))
		w[k] = pick(g, []string{"", "'", "0", "zoo", "4294967296", "99999999999999999999", strings.Repeat("0", 1+g.Intn(40)), w[k] + w[k], "\u0663", "-0"})
		for i := g.Intn(3); i > 0; i-- {
			w = append(w, pick(g, w))
		}
		if strings.Contains(s, "/") {
			return strings.Join(w, "/")
		}
	}
	return strings.Join(w, " ")
}

func (g *gen) wildBytes(h string) string {
	b, _ := hex.DecodeString(h)
	switch g.Intn(8) {
	case 0:
		return g.near(h)
	case 1:
		return hx(b[:g.Intn(len(b)+1)])
	case 2:
		return hx(append(b, g.Bytes(1+g.Intn(90))...))
	case 3:
		return ""
	case 4:
		return strings.Repeat(pick(g, []string{"00", "ff", "80", "04", "7f"}), pick(g, []int{1, 2, 3, 4, 15, 16, 17, 31, 32, 33, 64, 77, 78, 79, 81, 82, 83, 255, 256, 1000}))
	case 5:
		return hx(g.Bytes(pick(g, []int{1, 4, 16, 20, 31, 32, 33, 64, 78, 81, 82, 83, 200})))
	case 6:
		if len(b) > 0 {
			i := g.Intn(len(b))
			for j := i; j < len(b) && j < i+g.Intn(8); j++ {
				b[j] = pick(g, []byte{0, 0xff, 0x80})
			}
		}
		return hx(b)
	}
	return h
}

// wild replaces arguments by ones that a caller may get from outside.
func (g *gen) wild(o core.Op) core.Op {
	switch o.K {
	case "setlist", "wlist", "regdump", "reglook", "coin", "verpath", "coinok", "clock":
		return o
	case "entropy":
		o.N = pick(g, []int{-1 << 63, -1, 0, 1, 8, 31, 33, 64, 127, 128, 160, 255, 257, 288, 1 << 20, 1 << 31, 1<<63 - 1, g.Intn(300)})
		return o
	case "genmn", "pvalat":
		o.N = g.Intn(256)
	case "prepl":
		o.N = g.Intn(256)
		o.I = g.U32()
	case "child", "nchild":
		o.I = g.U32()
	}
	switch o.K {
	case "valpriv", "expand": // of fixed size
		if n := len(o.H) / 2; n > 0 {
			b, _ := hex.DecodeString(o.H)
			for i := g.Intn(4); i > 0; i-- {
				b[g.Intn(n)] = pick(g, []byte{0, 0xff, byte(g.U64())})
			}
			o.H = hx(b)
		}
		return o
	}
	if o.S != "" {
		o.S = g.wildText(o.S)
	}
	if o.S2 != "" || o.K == "seed" || o.K == "seedchk" || o.K == "dseed" {
		o.S2 = g.wildText(o.S2)
	}
	if o.H != "" {
		o.H = g.wildBytes(o.H)
		o.Buf = 0
	}
	return o
}

func (g *gen) genAnything() {
	g.pools(3)
	g.addKeys(2+g.Intn(3), func() ref.Key {
		k := g.anyKey()
		switch g.Weighted(6, 2, 2, 1) {
		case 1:
			k = ref.Key(g.Bytes(78))
		case 2: // an impossible key of a known version
			v := pick(g, ref.PvtVersions)
			copy(k[13:], g.Bytes(65))
			k[45] = pick(g, []byte{0, 0, 2, 3, 4, 5, 1, 0xff})
			if k[45] != 0 {
				v = ref.PvtToPub[v]
			}
			k.SetVersion(v)
			if g.Chance(0.5) {
				copy(k[46:], strings.Repeat(pick(g, []string{"\x00", "\xff"}), 32))
			}
		case 3:
			k = ref.Key{}
		}
		return k
	})
	g.indexPool(4)
	g.pathPool(2)
	for i := 0; i < 4; i++ {
		g.seeds = append(g.seeds, g.seedHex())
		g.paths = append(g.paths, g.wildText(pick(g, g.paths)))
	}
	for i := 0; i < 2; i++ {
		g.sc.Bufs = append(g.sc.Bufs, hx(g.Bytes(g.Intn(90))))
		g.sc.Slack = append(g.sc.Slack, g.slack())
	}
	wild := pick(g, []float64{0, 0.2, 0.5, 0.9})
	heavy := 4
	listFree := false
	op := func() core.Op {
		var o core.Op
		for {
			switch g.Weighted(5, 4, 4, 4, 5, 3, 2, 2, 1) {
			case 0:
				o = g.codecOp()
			case 1:
				o = g.keyOp()
			case 2:
				o = g.renderOp()
			case 3:
				o = g.pathOp(true)
			case 4:
				o = g.randomOp(pick(g, []string{"C01", "C02", "C03"}))
			case 5:
				if g.Chance(0.5) {
					o = core.Op{K: "deser", H: g.serialized(), Slack: g.slack()}
				} else {
					k := refKey(pick(g, g.sc.Keys))
					o = core.Op{K: "b58deser", S: pick(g, []string{k.B58(), g.dam58(k.B58())})}
				}
			case 6:
				o = core.Op{K: "root", S: pick(g, g.seeds)}
				if heavy > 0 && g.Chance(0.4) {
					heavy--
					o = core.Op{K: pick(g, []string{"seed", "seedchk", "dseed", "m2root"}), S: g.mn(), S2: pick(g, g.passes)}
				}
				if g.Chance(0.2) {
					o = core.Op{K: "master", H: hx(g.Bytes(g.Intn(80))), Slack: g.slack()}
				}
			case 7:
				p := fmt.Sprintf("m/%d'/%d'", pick(g, []uint64{0, 44, 49, 84, 99999999, g.U64() >> 20}), pick(g, []uint64{0, 2, 60, 99999999, 100000000, g.U64() >> 30}))
				o = core.Op{K: "anyver", S: p, S2: g.pass(), I: g.U32(), J: g.U32()}
			case 8:
				o = core.Op{K: pick(g, []string{"reglook", "coin", "wlist"}), N: g.Intn(2000)}
			}
			if g.Chance(wild) {
				o = g.wild(o)
			}
			if listFree {
				if usesList(o.K) {
					continue
				}
			}
			return o
		}
	}
	tasks, ops := g.shape(false)
	ops = min(ops, 25)
	again := g.Chance(0.3)
	if again {
		tasks, ops = min(tasks, 4), min(ops, 5)
	}
	var p core.Phase
	if g.Chance(0.15) {
		listFree = true
		p = g.switching(tasks, ops, 150, op)
		listFree = false
	} else if g.Chance(0.12) { // anybody sets the list at any time
		f := op
		p = g.fill(tasks, ops, 150, func() core.Op {
			if g.Chance(0.2) {
				return core.Op{K: "setlist", S: g.anyList(), Scrib: g.Intn(2)}
			}
			return f()
		})
	} else {
		p = g.fill(tasks, ops, 150, op)
	}
	g.sc.Phases = append(g.sc.Phases, p)
	if again { // over and over
		for i := 0; i < 6; i++ {
			s := g.sched(150 * tasks * ops)
			if g.Chance(0.4) {
				s = simrt.Spec{Kind: "seq", Seed: s.Seed}
			}
			g.sc.Phases = append(g.sc.Phases, core.Phase{Same: true, MapSeed: p.MapSeed, Sched: s})
		}
	}
}
