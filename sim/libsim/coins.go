package main

import (
	"bytes"
	"embed"
	"fmt"
	"io"
	"log"
	"strconv"
	"strings"
	"unsafe"

	"github.com/mearaj/bips/zzverif/core"
	"github.com/mearaj/bips/zzverif/simos"
	"github.com/mearaj/bips/zzverif/simrt"
)

// ---- the generator of the coin table (C25) ----

const coinFile = "testing.go"

// setDocument puts a document in place of the embedded one.
func setDocument(name, text string) {
	type file struct {
		name, data string
		hash       [16]byte
	}
	files := []file{{name: name, data: text}}
	*(**[]file)(unsafe.Pointer(simrt.CoinDocument)) = &files
}

var shippedDocument *embed.FS

// coinLines is what the document stands for: one line for every row with a
// decimal type, a path component, and a symbol or a name, unless its last
// column calls it reserved or dead.
func coinLines(doc string) []string {
	var out []string
	for _, row := range strings.Split(doc, "\n") {
		_, row, ok := strings.Cut(row, "| ")
		if !ok {
			continue
		}
		var cells []string
		for ok {
			var c string
			c, row, ok = strings.Cut(row, "| ")
			cells = append(cells, strings.TrimSpace(c))
		}
		if len(cells) < 3 {
			continue
		}
		last := cells[len(cells)-1]
		typ, e1 := strconv.ParseUint(cells[0], 10, 32)
		pc, e2 := strconv.ParseUint(cells[1], 0, 32)
		if e1 != nil || e2 != nil || strings.Contains(last, "reserved") || strings.Contains(last, "dead") {
			continue
		}
		sym, name := "", cells[2]
		if len(cells) > 3 {
			sym, name = cells[2], strings.Join(cells[3:], " ")
		}
		if sym != "" || name != "" {
			out = append(out, fmt.Sprintf("{Type: %d, PathComponent: 0x%x, Symbol: \"%s\", Name: \"%s\"},", typ, pc, sym, name))
		}
	}
	return out
}

func runCoins(sc *core.Scenario, o *core.Outcome) {
	defer func() { simos.D = &simos.Disk{Files: map[string]*simos.Inode{}} }()
	simos.D = &simos.Disk{Files: map[string]*simos.Inode{}}
	if err := simrt.Restart(1); err != nil {
		o.Fail("start-up", "the library does not start: %v", err)
		return
	}
	if simrt.CoinGenerator == nil {
		core.Probe("no_generator")
		return
	}
	if shippedDocument == nil {
		d := *simrt.CoinDocument
		shippedDocument = &d
	}
	defer func() { *simrt.CoinDocument = *shippedDocument }()
	var logged bytes.Buffer
	log.SetOutput(&logged)
	defer log.SetOutput(io.Discard)
	defName := *simrt.CoinFileName
	text, err := shippedDocument.ReadFile(defName)
	if err != nil {
		o.Fail("document", "the embedded document %s cannot be read: %v", defName, err)
		return
	}
	var rows []string
	for i := 0; i <= len(sc.Steps); i++ {
		st := core.Step{K: "run"} // at last, with nothing in the way
		if i < len(sc.Steps) {
			st = sc.Steps[i]
		} else if f := simos.D.File(coinFile); f != nil && f.Dir {
			simos.D.Del(coinFile)
		}
		o.Steps++
		switch st.K {
		case "row":
			rows = append(rows, st.S)
			continue
		case "many":
			for k := 0; k < st.A; k++ {
				rows = append(rows, fmt.Sprintf("| %d | 0x%08x | S%d | Coin %d", k, uint32(k)|1<<31, k, k))
			}
			continue
		case "shipped":
			rows = append(rows, string(text))
			continue
		case "clear":
			rows = nil
			continue
		case "stale":
			sf("disk.stale_file")
			simos.D.Put(coinFile, &simos.Inode{Data: []byte(st.S)})
			continue
		case "dir":
			sf("disk.directory_in_the_way")
			simos.D.Put(coinFile, &simos.Inode{Dir: true})
			continue
		case "undir":
			simos.D.Del(coinFile)
			continue
		case "restart":
			sf("crash.restart")
			if err := simrt.Restart(uint64(st.A)); err != nil {
				o.Fail("start-up", "the library does not start: %v", err)
				return
			}
			continue
		}
		doc := strings.Join(rows, "\n")
		if st.A&1 != 0 {
			doc += "\n"
		}
		if st.A&2 != 0 {
			doc = strings.ReplaceAll(doc, "\n", "\r\n")
		}
		*simrt.CoinFileName = defName
		setDocument(defName, doc)
		missing := st.A&4 != 0
		if missing {
			sf("document.missing")
			*simrt.CoinFileName = "missing.md"
		}
		inTheWay := false
		if f := simos.D.File(coinFile); f != nil && f.Dir {
			inTheWay = true
		}
		simos.D.Arm(coinFaults(st.F))
		logged.Reset()
		said := ""
		done := false
		res := simrt.Run(simrt.Config{Spec: sc.Sched, MaxSteps: 3_000_000, NumSites: core.NumSites}, []string{"generator"},
			[]func(*simrt.Task){func(t *simrt.Task) {
				switch f := simrt.CoinGenerator.(type) {
				case func():
					f()
				case func() error:
					if err := f(); err != nil {
						said = err.Error()
					}
				}
				done = true
			}})
		o.Segs = append(o.Segs, res.Segs)
		o.Steps += res.Steps
		o.Ops++
		crashed := false
		for _, f := range simos.D.Fired {
			switch f {
			case "crash":
				sf("crash.process")
				crashed = true
			case "open.error", "write.error", "sync.error", "close.error", "rename.error":
				sf("disk." + strings.Replace(f, ".", "_", 1))
			case "write.short":
				sf("disk.short_write")
			case "disk.full":
				sf("disk.full")
			default:
				sf("disk.other_error")
			}
		}
		if len(res.Panics) > 0 {
			said = "panic: " + res.Panics[0]
		}
		if res.Exited && res.Exit != 0 {
			said = fmt.Sprintf("exit status %d: %s", res.Exit, simrt.LastFatal)
		}
		if said == "" && logged.Len() > 0 && len(simos.D.Fired) > 0 {
			said = logged.String()
		}
		var got []string
		f := simos.D.File(coinFile)
		if f != nil {
			for _, l := range strings.Split(string(f.Data), "\n") {
				if l = strings.TrimSpace(l); l != "" {
					got = append(got, l)
				}
			}
		}
		want := coinLines(doc)
		o.Event("run %d: %d lines of document, %d wanted, %d written; faults %v; reported %q", i, strings.Count(doc, "\n"), len(want), len(got), simos.D.Fired, said)
		faulty := missing || inTheWay || len(simos.D.Fired) > 0
		simos.D.Arm(nil)
		switch {
		case crashed:
			// What is left behind is nobody's promise; the next run is.
			if err := simrt.Restart(uint64(i)); err != nil {
				o.Fail("start-up", "the library does not start: %v", err)
				return
			}
		case !done && said == "" && !res.Exited:
			o.Fail("hang", "the generator did not come to an end (%s)", res.Aborted)
			return
		case said != "":
			if !faulty {
				o.Fail("refused", "the generator failed although nothing was in its way: %s", said)
				return
			}
			if res.Exited || len(res.Panics) > 0 { // the process is gone
				if err := simrt.Restart(uint64(i)); err != nil {
					o.Fail("start-up", "the library does not start: %v", err)
					return
				}
			}
		case missing:
			o.Fail("unreported", "the document cannot be read and nobody is told")
			return
		case f == nil || f.Dir:
			o.Fail("unreported", "the run ended well without an output file")
			return
		default:
			if d := diffLines(got, want); d != "" {
				o.Fail("wrong-table", "the run ended well but %s", d)
				return
			}
		}
	}
	o.Shape = simrt.Mix2(o.Shape, o.Hash)
}

func diffLines(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return fmt.Sprintf("line %d of %d is missing: %s", i+1, len(want), core.Short(want[i]))
		case i >= len(want):
			return fmt.Sprintf("there is a line too many: %s", core.Short(got[i]))
		case got[i] != want[i]:
			return fmt.Sprintf("line %d is %s instead of %s", i+1, core.Short(got[i]), core.Short(want[i]))
		}
	}
	return ""
}

// coinFaults reads "kind:arg@op+n ...".
func coinFaults(s string) []simos.Fault {
	var out []simos.Fault
	for _, f := range strings.Fields(s) {
		kind, rest, _ := strings.Cut(f, "@")
		at, n, _ := strings.Cut(rest, "+")
		out = append(out, simos.Fault{At: atoi(at), Kind: kind, N: atoi(n)})
	}
	return out
}

func (g *gen) coinRow(k int) string {
	typ := fmt.Sprint(k)
	t := uint64(k)
	switch {
	case g.Chance(0.1):
		t = g.U64() >> 33
		typ = fmt.Sprint(t)
	case g.Chance(0.03):
		t = []uint64{0, 1<<31 - 1, 1 << 31, 1<<32 - 1}[g.Intn(4)]
		typ = fmt.Sprint(t)
	}
	pc := fmt.Sprintf("0x%08x", uint32(t)|1<<31)
	if g.Chance(0.05) {
		pc = fmt.Sprintf("0x%X", uint32(t)|1<<31)
	}
	if g.Chance(0.04) { // as the document has it, even where that is odd
		pc = fmt.Sprintf("0x%08x", uint32(g.U64()>>40))
	}
	sym := strings.ToUpper(fmt.Sprintf("%x", g.Bytes(1+g.Intn(3))))
	if g.Chance(0.2) {
		sym = ""
	}
	name := fmt.Sprintf("%s %d", pick(g, coinNames), g.Intn(1000))
	switch {
	case g.Chance(0.06):
		name = ""
	case g.Chance(0.05):
		name += " (dead)"
	case g.Chance(0.05):
		sym, name = "---", "reserved"
	case g.Chance(0.004):
		name = strings.Repeat("long name ", 3000+g.Intn(9000))
	}
	switch {
	case g.Chance(0.03):
		typ = pick(g, []string{"-1", "x", "4294967296", "", "1.5", "99999999999999999999", "Coin type"})
	case g.Chance(0.03):
		pc = pick(g, []string{"0x100000000", "0xzz", "", "-", "0x", "Path component"})
	}
	switch g.Intn(24) {
	case 0:
		return pick(g, []string{"", "# Registered coin types", "These are the registered coin types.", "|", "| ", "| ---------- | --------- | ------- | --- ",
			"| Coin type  | Path component (`coin_type'`) | Symbol  | Coin ", "||||", "| |", "a | b", "   "})
	case 1:
		return "| " + typ + " | " + pc + " | " + name
	case 2:
		return "| " + typ + " | " + pc
	case 3:
		return fmt.Sprintf("| %s | %s | %s | %s | %s", typ, pc, sym, name, pick(g, []string{"note", "", "https://example.org/?a=%d", "dead", "0x1"}))
	case 4, 5, 6:
		return fmt.Sprintf("| %s | %s | %s | %s", typ, pc, sym, name)
	}
	return fmt.Sprintf("| %-10s | %-29s | %-7s | %-33s ", typ, pc, sym, name)
}

var coinNames = []string{"Bitcoin", "Ether", "Testnet (all coins)", "Ünïcode", "元", "100%", "%s %d %v", "Deadcoin", "Dash's", "`tick`",
	"a, b", "{x}", "// no", "B & C", "<html>", "Ѐ́", "#1", "$name", "[link](https://a.b)", "tab\tbed", "null", "TRUE", "0"}

// genCoins makes a life of the generator: documents that change between runs,
// a disk that fails in some of them.
func (g *gen) genCoins() {
	g.sc.Mode = "coins"
	g.sc.Sched = simrt.Spec{Seed: g.U64() >> 12}
	add := func(st core.Step) { g.sc.Steps = append(g.sc.Steps, st) }
	k := g.Intn(50)
	rows := func(n int) {
		for ; n > 0; n-- {
			add(core.Step{K: "row", S: g.coinRow(k)})
			k += 1 + g.Intn(3)
		}
	}
	if g.Chance(0.02) {
		add(core.Step{K: "shipped"})
	}
	rows(g.Intn(12))
	if g.Chance(0.05) {
		rows(100)
	}
	if g.Chance(0.004) {
		add(core.Step{K: "many", A: 500 + g.Intn(4000)})
	}
	for n := 1 + g.Intn(6); n > 0; n-- {
		st := core.Step{K: "run", A: g.Intn(4)}
		if g.Chance(0.85) {
			st.A &^= 2
		}
		switch {
		case g.Chance(0.5):
			var fs []string
			for m := 1 + g.Intn(2); m > 0; m-- {
				at := g.Intn(4)
				if g.Chance(0.15) {
					at = g.Intn(20)
				}
				size := g.Intn(900)
				switch g.Intn(3) {
				case 0:
					size = g.Intn(8)
				case 1:
					size = g.Intn(200)
				}
				kind := pick(g, []string{"error:EIO", "error:ENOSPC", "error:EACCES", "error:EROFS", "error:EDQUOT", "error:EMFILE", "short", "short", "full", "full", "crash", "crash"})
				fs = append(fs, fmt.Sprintf("%s@%d+%d", kind, at, size))
			}
			st.F = strings.Join(fs, " ")
		case g.Chance(0.08):
			st.A |= 4
		}
		switch {
		case g.Chance(0.08):
			add(core.Step{K: "dir"})
			add(st)
			add(core.Step{K: "undir"})
			continue
		case g.Chance(0.15):
			add(core.Step{K: "stale", S: pick(g, []string{"", "package bip44\n", strings.Repeat("old text, longer than anything the run will write\n", 1+g.Intn(400))})})
		}
		add(st)
		switch g.Intn(6) {
		case 0:
			add(core.Step{K: "restart", A: g.Intn(1000)})
		case 1:
			add(core.Step{K: "clear"})
			rows(g.Intn(9))
		case 2:
			rows(1 + g.Intn(3))
		}
	}
}
