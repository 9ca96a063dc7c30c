package main

import (
	"encoding/hex"
	"fmt"
	"strconv"
	"strings"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/util"
	"github.com/mearaj/bips/zzverif/core"
	"github.com/mearaj/bips/zzverif/ref"
	"github.com/mearaj/bips/zzverif/simrt"
)

// disk is the simulated storage. Every record has a cached and a durable
// image; a crash keeps an arbitrary subset of the sectors that were written
// and not yet synced.
type disk struct {
	slots [nSlots]slot
}

const (
	nSlots  = 8
	slotCap = 1024
	sector  = 16
)

type slot struct {
	cur, dur   [slotCap]byte
	nCur, nDur int
	written    bool
}

// Storage faults, counted when they changed what a reader sees.
var storageFaults = []string{"disk.bit_flip", "disk.truncation", "disk.extension", "disk.zeroed_range", "disk.duplicated_range",
	"disk.swapped_sectors", "disk.inserted_byte", "disk.deleted_byte", "disk.spliced_records", "disk.case_flip",
	"disk.torn_by_crash", "disk.misdirected_write", "disk.short_read_lost_tail",
	"words.lost", "words.repeated", "words.swapped", "words.replaced", "words.truncated", "words.character_flip",
	"words.extra_whitespace", "words.leading_whitespace", "words.trailing_whitespace", "words.case", "words.abbreviated",
	"words.stray_mark", "words.numbered", "words.look_alike",
	"disk.open_error", "disk.write_error", "disk.short_write", "disk.full", "disk.sync_error", "disk.close_error", "disk.rename_error",
	"disk.other_error", "disk.stale_file", "disk.directory_in_the_way", "document.missing",
	"crash.process", "crash.restart", "disk.chunked_read", "clock.jump"}

var sfIx = map[string]int{}

func init() {
	for i, n := range storageFaults {
		sfIx[n] = i
	}
	if len(storageFaults) > 64 {
		panic("libsim: too many faults")
	}
}

func sf(name string) {
	i, ok := sfIx[name]
	if !ok {
		panic("libsim: unknown fault " + name)
	}
	fired[fStorage0+i]++
}

// write puts bytes into the cache, sector by sector, and then syncs.
func (d *disk) write(n int, b []byte, sync bool) {
	s := &d.slots[n%nSlots]
	s.written = true
	s.nCur = 0
	for i := 0; i < len(b) && i < slotCap; i++ {
		if i%sector == 0 {
			simrt.Y(2)
		}
		s.cur[i] = b[i]
		s.nCur = i + 1
	}
	simrt.Y(2)
	if sync {
		d.sync(n)
	}
}

func (d *disk) sync(n int) {
	s := &d.slots[n%nSlots]
	s.dur, s.nDur = s.cur, s.nCur
}

// crash loses what was not durable: each unsynced sector and the record's
// length survive or not, as the seed decides.
func (d *disk) crash(r *simrt.Rand) {
	for i := range d.slots {
		s := &d.slots[i]
		if s.nCur == s.nDur && s.cur == s.dur {
			continue
		}
		torn := false
		n := s.nDur
		if r.Chance(0.6) {
			n = s.nCur
		}
		for j := 0; j < slotCap; j += sector {
			if r.Chance(0.5) {
				copy(s.dur[j:j+sector], s.cur[j:j+sector])
			} else {
				torn = true
			}
		}
		s.nDur = n
		s.cur, s.nCur = s.dur, s.nDur
		if torn {
			sf("disk.torn_by_crash")
		}
	}
}

// read returns the record in chunks, with a scheduling point after each.
func (d *disk) read(n int, chunk int) []byte {
	s := &d.slots[n%nSlots]
	out := make([]byte, 0, slotCap)
	if chunk < 1 {
		chunk = slotCap
	} else {
		sf("disk.chunked_read")
	}
	for i := 0; i < s.nCur; i++ {
		if i%chunk == 0 {
			simrt.Y(2)
		}
		out = out[:i+1]
		out[i] = s.cur[i]
	}
	return out
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

func clone(b []byte) []byte { return append([]byte(nil), b...) }

// damage applies a fault specification to a record as read.
func (d *disk) damage(b []byte, spec string) []byte {
	if spec == "" {
		return b
	}
	for _, f := range strings.Split(spec, ",") {
		name, a, _ := strings.Cut(f, ":")
		a1, a2, _ := strings.Cut(a, ":")
		x, y := atoi(a1), atoi(a2)
		o := clone(b)
		what := ""
		n := len(b)
		switch name {
		case "flip":
			if n > 0 {
				o[x/8%n] ^= 1 << (x % 8)
				what = "disk.bit_flip"
			}
		case "trunc":
			if x < n {
				o = o[:x]
				what = "disk.truncation"
			}
		case "tail": // a short read that lost the last x bytes
			if x <= n && x > 0 {
				o = o[:n-x]
				what = "disk.short_read_lost_tail"
			}
		case "ext":
			e, _ := hex.DecodeString(a1)
			o = append(o, e...)
			what = "disk.extension"
		case "pre":
			e, _ := hex.DecodeString(a1)
			o = append(e, o...)
			what = "disk.extension"
		case "zero":
			for i := x; i < x+y && i < n; i++ {
				o[i] = 0
			}
			what = "disk.zeroed_range"
		case "dup":
			if x < n {
				e := min(x+y, n)
				o = append(append(clone(b[:e]), b[x:e]...), b[e:]...)
				what = "disk.duplicated_range"
			}
		case "swap":
			if n >= 2*sector {
				k := n / sector
				i, j := x%k*sector, y%k*sector
				for l := 0; l < sector; l++ {
					o[i+l], o[j+l] = o[j+l], o[i+l]
				}
				what = "disk.swapped_sectors"
			}
		case "ins":
			x %= n + 1
			o = append(append(clone(b[:x]), byte(y)), b[x:]...)
			what = "disk.inserted_byte"
		case "del":
			if n > 0 {
				x %= n
				o = append(clone(b[:x]), b[x+1:]...)
				what = "disk.deleted_byte"
			}
		case "splice": // the tail comes from another record
			s := &d.slots[x%nSlots]
			for i := y; i < n && i < s.nCur; i++ {
				o[i] = s.cur[i]
			}
			what = "disk.spliced_records"
		case "case":
			if n > 0 {
				if c := o[x%n]; c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' {
					o[x%n] ^= 0x20
				}
				what = "disk.case_flip"
			}
		case "set":
			if n > 0 {
				o[x%n] = byte(y)
				what = "disk.bit_flip"
			}
		default:
			o = []byte(damageWords(string(b), name, x, y, a2, &what))
		}
		if string(o) != string(b) && what != "" {
			sf(what)
		}
		b = o
	}
	return b
}

var spaces = []string{"  ", "\t", "\n", "\r\n", "\u3000", "\u00a0", "   ", " \t ", "\v", "\u2003", "\f"}

// marks are what gets into a copied text without being part of it.
var marks = []string{"\u200b", "\ufeff", "\u00ad", "\u200d", "\u200c", "\u2060", "\u200e", "\u0301", "\u3099", "\ufe0f", ",", ".", ";", "-", "_",
	"*", "1", "0", "\"", "'", "\x00", "\x1b", "\u2028", "\u0085", "\u180e", "\xff", "\ufffd", "/", "|", "\\n", "&nbsp;", "%20", "+"}

// damageWords applies a fault to a mnemonic backup.
func damageWords(m, name string, x, y int, arg string, what *string) string {
	w := strings.Split(m, " ")
	n := len(w)
	o := append([]string(nil), w...)
	switch name {
	case "wdel":
		*what = "words.lost"
		o = append(o[:x%n], o[x%n+1:]...)
	case "wdup":
		*what = "words.repeated"
		o = append(append(append([]string(nil), w[:x%n+1]...), w[x%n]), w[x%n+1:]...)
	case "wswap":
		*what = "words.swapped"
		o[x%n], o[y%n] = o[y%n], o[x%n]
	case "wrep":
		*what = "words.replaced"
		o[x%n] = arg
	case "wtrunc":
		*what = "words.truncated"
		o = o[:x%n]
	case "wcat": // two words run together
		*what = "words.lost"
		if n > 1 {
			i := x % (n - 1)
			o[i] += o[i+1]
			o = append(o[:i+1], o[i+2:]...)
		}
	case "char":
		*what = "words.character_flip"
		r := []rune(o[x%n])
		if len(r) > 0 {
			r[y%len(r)]++
		}
		o[x%n] = string(r)
	case "ws":
		*what = "words.extra_whitespace"
		i := 1 + x%max(1, n-1)
		if n < 2 {
			return m
		}
		return strings.Join(w[:i], " ") + spaces[y%len(spaces)] + strings.Join(w[i:], " ")
	case "wsall":
		*what = "words.extra_whitespace"
		return strings.Join(w, spaces[x%len(spaces)])
	case "lead":
		*what = "words.leading_whitespace"
		return spaces[x%len(spaces)] + m
	case "trail":
		*what = "words.trailing_whitespace"
		return m + spaces[x%len(spaces)]
	case "upper":
		*what = "words.case"
		o[x%n] = strings.ToUpper(o[x%n])
	case "abbr":
		*what = "words.abbreviated"
		if r := []rune(o[x%n]); len(r) > 4 {
			o[x%n] = string(r[:4])
		}
	case "mark": // a mark inside or beside a word
		*what = "words.stray_mark"
		mk := marks[y%len(marks)]
		switch r := []rune(o[x%n]); x / n % 4 {
		case 0:
			o[x%n] = mk + o[x%n]
		case 1:
			o[x%n] += mk
		case 2:
			o[x%n] = string(r[:len(r)/2]) + mk + string(r[len(r)/2:])
		case 3:
			o[x%n] += " " + mk
		}
	case "marks": // marks instead of, or beside, the blanks
		*what = "words.stray_mark"
		sep := []string{"%s", "%s ", " %s", " %s "}[y%4]
		return strings.Join(w, strings.ReplaceAll(sep, "%s", marks[x%len(marks)]))
	case "number":
		*what = "words.numbered"
		for i := range o {
			o[i] = fmt.Sprintf([]string{"%d.%s", "%d. %s", "%d) %s", "%d %s", "%d%s"}[x%5], i+1, o[i])
		}
	case "exotic":
		*what = "words.look_alike"
		o[x%n] = core.Exotic(simrt.NewRand(uint64(y)), o[x%n])
	default:
		panic("libsim: unknown fault " + name)
	}
	return strings.Join(o, " ")
}

// store writes a key in its binary or Base58 form.
func (e *exec) store() string {
	op := e.r.op
	k := e.key()
	var rec []byte
	if op.F {
		rec = []byte(k.B58Serialize())
	} else {
		b, err := k.Serialize()
		if err != nil {
			return "ERR"
		}
		rec = clone(b)
		e.keep(b)
	}
	e.r.obs = clone(rec)
	e.place(rec)
	return "stored " + hx(rec)
}

// place writes a record where the disk decides to.
func (e *exec) place(rec []byte) {
	op := e.r.op
	at := op.N
	if strings.HasPrefix(op.S2, "misdir:") {
		at = atoi(op.S2[7:])
		sf("disk.misdirected_write")
	}
	e.w.disk.write(at, rec, op.J == 0)
}

// load reads a record back, possibly damaged, and loads it as a key.
func (e *exec) load() string {
	op := e.r.op
	raw := e.w.disk.damage(e.w.disk.read(op.N, int(op.I)), op.S2)
	e.r.obs = clone(raw)
	var k bip32.Key
	var err error
	if op.F {
		k, err = bip32.B58Deserialize(string(raw))
	} else {
		k, err = bip32.Deserialize(e.private(raw, op.Slack))
	}
	if err != nil {
		return "ERR"
	}
	return keyHex(k) + " " + fmt.Sprint(k.IsValid()) + " " + k.B58Serialize()
}

// mstore writes a mnemonic for the entropy in H.
func (e *exec) mstore() string {
	m, err := bip39.NewMnemonic(e.arg())
	if err != nil {
		return "ERR"
	}
	e.r.obs = []byte(m)
	e.place([]byte(m))
	return "stored " + m
}

// mload reads a mnemonic back and restores everything from it.
func (e *exec) mload() string {
	op := e.r.op
	raw := e.w.disk.damage(e.w.disk.read(op.N, int(op.I)), op.S2)
	e.r.obs = clone(raw)
	m := string(raw)
	var sb strings.Builder
	add := func(s string) { sb.WriteString(s); sb.WriteByte(' ') }
	add(e.out(bip39.EntropyFromMnemonic(m)))
	add(e.out(bip39.MnemonicToByteArray(m)))
	add(e.out(bip39.MnemonicToByteArray(m, true)))
	add(fmt.Sprint(bip39.IsMnemonicValid(m)))
	if op.F {
		add(e.out(bip39.NewSeedWithErrorChecking(m, op.S)))
		s, err := util.DeriveSeedFromMnemonic(m, op.S)
		add(e.strRes(s, err))
		if err == nil {
			add(e.keyPtr(util.RootKeyFromSeed(s)))
		}
	}
	return strings.TrimSpace(sb.String())
}

func expectStore(sc *core.Scenario, l *ref.List, r *result) string {
	op := r.op
	want := "ERR"
	if op.K == "store" {
		k := refKey(sc.Keys[op.Key-1])
		if op.F {
			want = "stored " + hx([]byte(k.B58()))
		} else if b, err := k.Serialize(); err == nil {
			want = "stored " + hx(b)
		}
	} else {
		b, _ := hex.DecodeString(op.H)
		if m, err := l.Mnemonic(b); err == nil {
			want = "stored " + m
		}
	}
	if r.res != want {
		return fmt.Sprintf("got %s, want %s", core.Short(r.res), core.Short(want))
	}
	return ""
}

func expectLoad(r *result) string {
	var k ref.Key
	var err error
	if r.op.F {
		k, err = ref.B58Deserialize(string(r.obs))
	} else {
		k, err = ref.Deserialize(r.obs)
	}
	want := "ERR"
	if err == nil {
		want = k.Hex() + " " + fmt.Sprint(!k.Empty()) + " " + k.B58()
	}
	if r.res != want {
		return fmt.Sprintf("read record %s: got %s, want %s", core.Short(hx(r.obs)), core.Short(r.res), core.Short(want))
	}
	return ""
}

func expectMload(l *ref.List, r *result) string {
	m := string(r.obs)
	ent, err := l.Entropy(m)
	want := "ERR ERR ERR false"
	if err != nil {
		if r.op.F {
			want += " ERR ERR"
		}
	} else {
		ba, _ := l.ByteArray(m, false)
		want = hx(ent) + " " + hx(ba) + " " + hx(ent) + " true"
		if r.op.F {
			s, _ := l.SeedOf(m, r.op.S)
			k, kerr := ref.MasterKey(s)
			want += " " + hx(s) + " =" + hx(s) + " " + rk(k, kerr)
		}
	}
	if r.res != want {
		return fmt.Sprintf("backup %q: got %s, want %s", m, core.Short(r.res), core.Short(want))
	}
	return ""
}
