package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/bip44"
	"github.com/mearaj/bips/util"
	"github.com/mearaj/bips/zzverif/core"
	"github.com/mearaj/bips/zzverif/ref"
	"github.com/mearaj/bips/zzverif/simrt"
)

const canary = 0xC7

// world is the memory the tasks of a phase share.
type world struct {
	sc    *core.Scenario
	keys  []*bip32.Key
	gens  []*util.Generator
	tgens []*util.Generator    // each caller's own generator
	trngs []*util.KeyPathRange // and range
	bufs  [][]byte             // shared read-only argument buffers
	bufsW [][]byte             // the same, up to capacity
	spots []*spot              // what each caller uses again, see Scenario.Spot
	disk  *disk
}

// spot is the memory one caller keeps its arguments in, each in place of the
// one before.
type spot struct {
	key   bip32.Key
	used  bool
	buf   [1 << 10]byte
	words []string
}

// held is a result the caller keeps and looks at again at the end.
type held struct {
	b     []byte
	want  string
	path  *bip32.Path
	wpath bip32.Path
	what  string

	words  []string
	wwords string
	vals   []uint32
	wvals  string
}

// changed says how the value differs from what was returned.
func (h *held) changed() string {
	if hx(h.b) != h.want {
		return fmt.Sprintf("from %s to %s", core.Short(h.want), core.Short(hx(h.b)))
	}
	if h.path != nil && *h.path != h.wpath {
		return fmt.Sprintf("from %s to %s", core.Short(string(h.wpath)), core.Short(string(*h.path)))
	}
	if h.words != nil && strings.Join(h.words, " ") != h.wwords {
		return "in the word list"
	}
	if h.vals != nil && fmt.Sprint(h.vals) != h.wvals {
		return fmt.Sprintf("from %s to %v", h.wvals, h.vals)
	}
	return ""
}

// result is what an operation did.
type result struct {
	task, ix   int
	op         *core.Op
	res        string
	start, end int
	waited     time.Duration // simulated time in which nothing could run
	ctx        *opCtx
	obs        []byte // bytes a load observed
	held       []held
	done       bool
	killed     bool
	panicked   bool
}

func hx(b []byte) string { return hex.EncodeToString(b) }

func keyHex(k bip32.Key) string { return hx(k[:]) }

type exec struct {
	w    *world
	r    *result
	args [][]byte // private argument buffers, full capacity
	orig [][]byte
}

// arg builds the byte-slice argument of an operation.
func (e *exec) arg() []byte {
	op := e.r.op
	if op.Buf > 0 {
		return e.w.bufs[op.Buf-1]
	}
	b, _ := hex.DecodeString(op.H)
	return e.private(b, op.Slack)
}

func (e *exec) private(b []byte, slack int) []byte {
	n := len(b) + slack
	var full []byte
	if s := e.spot(); s != nil && n <= len(s.buf) && len(e.args) == 0 {
		full = s.buf[:n:n]
	} else {
		full = make([]byte, n)
	}
	copy(full, b)
	for i := len(b); i < len(full); i++ {
		full[i] = canary
	}
	e.args = append(e.args, full)
	e.orig = append(e.orig, append([]byte(nil), full...))
	return full[:len(b)]
}

// after checks and then overwrites the private arguments.
func (e *exec) after() {
	if s := e.spot(); s != nil && e.r.op.Key > 0 && s.used {
		s.used = false
		if h := keyHex(s.key); h != e.w.sc.Keys[e.r.op.Key-1] {
			e.r.ctx.notes = append(e.r.ctx.notes, fmt.Sprintf("the key %s became %s", e.w.sc.Keys[e.r.op.Key-1], h))
		}
	}
	for i := range e.args {
		if !bytes.Equal(e.args[i], e.orig[i]) {
			e.r.ctx.notes = append(e.r.ctx.notes, fmt.Sprintf("caller memory changed: %s became %s (length passed %d)",
				hx(e.orig[i]), hx(e.args[i]), len(e.r.op.H)/2))
		}
		if e.r.op.Scrib&1 != 0 {
			for j := range e.args[i] {
				e.args[i][j] = 0xEE
			}
		}
	}
}

// out renders a byte-slice result and keeps or overwrites it.
func (e *exec) out(b []byte, err error) string {
	if err != nil {
		e.keep(b) // what comes with an error is the caller's, too
		return "ERR"
	}
	s := hx(b)
	e.keep(b)
	return s
}

func (e *exec) keep(b []byte) {
	if e.r.op.Scrib&2 != 0 {
		b = b[:cap(b)]
		for i := range b {
			b[i] = 0xDD
		}
		return
	}
	if len(b) > 0 {
		e.r.held = append(e.r.held, held{b: b, want: hx(b), what: e.r.op.K})
	}
}

func (e *exec) keyRes(k bip32.Key, err error) string {
	if err != nil {
		return "ERR"
	}
	return keyHex(k)
}

func (e *exec) keyPtr(k *bip32.Key, err error) (res string) {
	if k == nil {
		if err != nil {
			return "ERR"
		}
		return "NIL"
	}
	s := keyHex(*k)
	defer func() {
		if err != nil {
			res = "ERR"
		}
	}()
	if e.r.op.Scrib&2 != 0 {
		for i := range k {
			k[i] = 0xDD
		}
	} else {
		e.r.held = append(e.r.held, held{b: k[:], want: s, what: e.r.op.K})
	}
	return s
}

func (e *exec) strRes(s string, err error) string {
	if err != nil {
		if s != "" {
			return "ERR with value " + s
		}
		return "ERR"
	}
	return "=" + s
}

func (e *exec) paths(kp []util.KeyPath, err error) string {
	if err != nil {
		return "ERR"
	}
	var sb strings.Builder
	for i := range kp {
		sb.WriteString(string(kp[i].Path))
		sb.WriteByte(':')
		sb.WriteString(hx(kp[i].Key[:]))
		sb.WriteByte(' ')
	}
	for i := range kp {
		if e.r.op.Scrib&2 != 0 {
			kp[i] = util.KeyPath{Path: "m/666", Key: bip32.Key{1: 0xDD}}
		} else {
			e.r.held = append(e.r.held, held{b: kp[i].Key[:], want: hx(kp[i].Key[:]), path: &kp[i].Path, wpath: kp[i].Path, what: e.r.op.K})
		}
	}
	return sb.String()
}

// key is the key an operation is about: the one all callers share, or the
// caller's own variable, which holds one key after another.
func (e *exec) key() *bip32.Key {
	k := e.w.keys[e.r.op.Key-1]
	if s := e.spot(); s != nil {
		s.key, s.used = *k, true
		return &s.key
	}
	return k
}

func (e *exec) spot() *spot {
	if e.w == nil || !e.w.sc.Spot {
		return nil
	}
	return e.w.spots[e.r.task]
}

// wordList is the caller's slice with a list of words.
func wordList(name string, own bool, s *spot) []string {
	words := shipped(name)
	if words == nil || own {
		words = append([]string(nil), refList(name).W...)
	}
	if s != nil {
		s.words = append(s.words[:0], words...)
		words = s.words
	}
	return words
}

// run executes one operation of the code under test.
func (e *exec) run() string {
	op := e.r.op
	switch op.K {
	// ------------------------------------------------ randomness
	case "entropy":
		return e.out(bip39.NewEntropy(op.N))
	case "newseed":
		return e.out(bip32.NewSeed())
	case "genmn":
		return e.strRes(util.GenerateMnemonic(byte(op.N)))
	// ------------------------------------------------ BIP-39 codec
	case "mnem":
		return e.strRes(bip39.NewMnemonic(e.arg()))
	case "ent":
		return e.out(bip39.EntropyFromMnemonic(op.S))
	case "mba":
		if op.N == 0 {
			return e.out(bip39.MnemonicToByteArray(op.S))
		}
		return e.out(bip39.MnemonicToByteArray(op.S, op.F))
	case "mvalid":
		return fmt.Sprint(bip39.IsMnemonicValid(op.S))
	case "wix":
		i, ok := bip39.GetWordIndex(op.S)
		if !ok {
			return "none"
		}
		return fmt.Sprint(i)
	case "wlist":
		l := bip39.GetWordList()
		s := strings.Join(l, " ")
		if op.Scrib&2 != 0 {
			for i := range l {
				l[i] = "scribbled"
			}
		} else if op.Scrib&1 != 0 {
			e.r.held = append(e.r.held, held{words: l, wwords: s, what: op.K})
		}
		return s
	case "setlist":
		words := wordList(op.S, op.Scrib&1 != 0, e.spot())
		bip39.SetWordList(words)
		if op.Scrib&1 != 0 {
			for i := range words {
				words[i] = "scribbled"
			}
		}
		return ""
	// ------------------------------------------------ seeds and master keys
	case "seed":
		return e.out(bip39.NewSeed(op.S, op.S2), nil)
	case "seedchk":
		return e.out(bip39.NewSeedWithErrorChecking(op.S, op.S2))
	case "dseed":
		return e.strRes(util.DeriveSeedFromMnemonic(op.S, op.S2))
	case "master":
		return e.keyPtr(bip32.NewMasterKey(e.arg()))
	case "root":
		return e.keyPtr(util.RootKeyFromSeed(op.S))
	case "m2root": // the whole way a wallet goes
		s, err := util.DeriveSeedFromMnemonic(op.S, op.S2)
		if err != nil {
			return "ERR"
		}
		return e.keyPtr(util.RootKeyFromSeed(s))
	// ------------------------------------------------ BIP-32 keys
	case "child":
		return e.keyRes(e.key().NewChildKey(op.I))
	case "chain":
		k := *e.key()
		s := ""
		for _, v := range op.V {
			c, err := k.NewChildKey(v)
			if err != nil {
				return s + "ERR"
			}
			s += keyHex(c) + " "
			k = c
		}
		return s
	case "neuter":
		return keyHex(e.key().PublicKeyExtended())
	case "nchild": // child of the neutered key
		n := e.key().PublicKeyExtended()
		return e.keyRes(n.NewChildKey(op.I))
	case "ser":
		return e.out(e.key().Serialize())
	case "b58":
		return e.key().B58Serialize()
	case "str":
		return e.key().String()
	case "kvalid":
		return fmt.Sprint(e.key().IsValid())
	case "kget":
		k := e.key()
		v, d, f, c, cc := k.GetVersion(), k.GetDepth(), k.GetFingerPrint(), k.GetChildNumber(), k.GetChainCode()
		kb, pb := k.GetKeyBytes(), k.GetPvtKeyBytes()
		return fmt.Sprintf("%08x %x %x %x %x %x %x %v", v, d[:], f[:], c[:], cc[:], kb[:], pb[:], k.IsPrivate())
	case "setver": // on a private copy
		k := *e.key()
		if op.F {
			k.SetVersionUint32(op.I)
		} else {
			k.SetVersion(bip32.Version{byte(op.I >> 24), byte(op.I >> 16), byte(op.I >> 8), byte(op.I)})
		}
		return keyHex(k)
	case "deser":
		return e.keyRes(bip32.Deserialize(e.arg()))
	case "b58deser":
		return e.keyRes(bip32.B58Deserialize(op.S))
	// ------------------------------------------------ rendering
	case "pubhex":
		return e.key().PublicKeyHex()
	case "pvthex":
		return e.key().PrivateKeyHex()
	case "addrhex":
		return util.KeyPath{Path: "m", Key: *e.key()}.AddrHex()
	case "addrb58":
		return util.KeyPath{Path: "m", Key: *e.key()}.AddrP2SH(byte(op.N))
	case "hash160":
		return e.out(bip32.HashRipeMD160onSha256(e.arg()))
	case "cksum":
		return e.out(bip32.ChecksumDblSha256(e.arg()))
	case "addck":
		a := e.arg()
		b, err := bip32.AddChecksumDblSha256ToBytes(a)
		if err != nil {
			return "ERR"
		}
		s := hx(b)
		e.keep(b)
		return s
	case "expand":
		x, y := bip32.ExpandPublicKey(e.arg())
		s := fmt.Sprintf("%064x%064x", x, y)
		if op.Scrib&2 != 0 {
			for _, v := range []*big.Int{x, y} {
				for i := range v.Bits() {
					v.Bits()[i] = 0xDDDD
				}
			}
		}
		return s
	case "valpriv":
		b, _ := hex.DecodeString(op.H)
		if bip32.ValidatePrivateKey(bip32.PvtKeyBytes(b)) != nil {
			return "ERR"
		}
		return "ok"
	// ------------------------------------------------ paths
	case "pvalid":
		return fmt.Sprint(bip32.Path(op.S).IsValid())
	case "pvals":
		v, err := bip32.Path(op.S).ValuesAtDepth()
		s := fmt.Sprint(v)
		if op.Scrib&2 != 0 {
			v = v[:cap(v)]
			for i := range v {
				v[i] = 0xDDDDDDDD
			}
		} else {
			e.r.held = append(e.r.held, held{vals: v, wvals: s, what: op.K})
		}
		if err != nil {
			return "ERR"
		}
		return s
	case "pvalat":
		v, err := bip32.Path(op.S).ValueAtDepth(byte(op.N))
		if err != nil {
			return "ERR"
		}
		return fmt.Sprint(v)
	case "prepl":
		p, err := bip32.Path(op.S).ReplaceValueAtDepth(byte(op.N), op.I)
		if err != nil {
			return "ERR"
		}
		return "=" + string(p)
	case "pstr":
		if op.F {
			return "=" + string(bip32.Path(op.S).Formatted())
		}
		return "=" + bip32.Path(op.S).String()
	case "derive":
		return e.paths(e.w.gens[op.Key-1].DeriveBIP32Result(bip32.Path(op.S)))
	case "derive1": // a generator of the caller's own
		g := &util.Generator{}
		if op.N == 1 { // used before for other keys
			g = e.w.tgens[e.r.task]
		}
		g.SetRootKey(*e.key())
		if *g.RootKey() != *e.key() {
			return "the generator's root key is not the one that was set"
		}
		return e.paths(g.DeriveBIP32Result(bip32.Path(op.S)))
	case "range":
		r := &util.KeyPathRange{}
		if op.N == 1 {
			r = e.w.trngs[e.r.task]
		}
		r.StartIndex, r.EndIndex = op.I, op.J
		r.Path = bip32.Path(op.S)
		r.Key = *e.key()
		err := r.GenerateRange()
		if r.Key != *e.key() || r.Path != bip32.Path(op.S) {
			e.r.ctx.notes = append(e.r.ctx.notes, "the range's own base key or path changed")
		}
		return e.paths(r.KeyPaths, err)
	// ------------------------------------------------ registries
	case "regdump":
		return regDump()
	case "reglook":
		return regLook(op)
	case "coin":
		return coinLook(op)
	case "verpath":
		return verPath(op)
	case "coinok":
		return coinOK(op)
	case "anyver": // version bytes and coins that are not registered
		h := bip32.VersionBytes{Coin: op.S2, PvtKeyFlag: op.I, PubKeyFlag: op.J, PvKeyPrefix: op.S2, PubKeyPrefix: op.S, Path: bip32.Path(op.S)}
		a, e1 := h.PurposeVal()
		b, e2 := h.PurposeValFull()
		c, e3 := h.CoinVal()
		d, e4 := h.CoinValFull()
		k := bip44.Coin{Type: op.I, PathComponent: op.J, Symbol: op.S2, Name: op.S}
		return fmt.Sprint(a, b, c, d, e1, e2, e3, e4, h.IsValid(), h.IsRegistered(), h.PvtKeyFlagBytes(), h.PubKeyFlagBytes(), k.IsValid()) + k.String() + k.StringForMD()
	// ------------------------------------------------ process and storage
	case "clock":
		sf("clock.jump")
		simrt.Advance(time.Duration(op.N) * time.Millisecond)
		return ""
	case "crash":
		sf("crash.process")
		simrt.Crash()
		return ""
	case "store":
		return e.store()
	case "load":
		return e.load()
	case "mstore":
		return e.mstore()
	case "mload":
		return e.mload()
	}
	panic("libsim: unknown operation " + op.K)
}

// perform runs an operation and records everything about it.
func (w *world) perform(t *simrt.Task, r *result) {
	t.Op = r.ix
	seed := simrt.Mix2(w.sc.Seed, uint64(r.task)<<20|uint64(r.ix)+7)
	r.ctx = &opCtx{plan: r.op.Plan, seed: seed, deliv: make([]byte, 0, 512)}
	r.ctx.stream.Seed(seed)
	switch r.op.K {
	case "entropy", "newseed", "genmn":
		r.ctx.wantsR = true
	}
	t.Local = r.ctx
	r.start = simrt.Step()
	r.waited = simrt.Waited()
	e := &exec{w: w, r: r}
	func() {
		defer func() {
			if r.done {
				return
			}
			if v := recover(); v != nil {
				r.res = fmt.Sprintf("PANIC %v", v)
				r.panicked = true
			} else {
				r.killed = true
			}
		}()
		r.res = e.run()
		r.done = true
		e.after()
		if seed>>7%4 == 0 {
			simrt.Collect()
		}
	}()
	r.end = simrt.Step()
	r.waited = simrt.Waited() - r.waited
	t.Local = nil
	t.Op = -1
}

// ---- expectations ----

func refKey(s string) ref.Key { return ref.KeyFromHex(s) }

func rk(k ref.Key, err error) string {
	if err != nil {
		return "ERR"
	}
	return k.Hex()
}

func rb(b []byte, err error) string {
	if err != nil {
		return "ERR"
	}
	return hx(b)
}

func pathList(l []ref.PathKey, err error) string {
	if err != nil {
		return "ERR"
	}
	var sb strings.Builder
	for i := range l {
		fmt.Fprintf(&sb, "%s:%s ", l[i].Path, l[i].Key.Hex())
	}
	return sb.String()
}

// expect checks an operation's result against the reference model; it returns
// "" or what is wrong.
func expect(sc *core.Scenario, l *ref.List, r *result) string {
	op := r.op
	var key ref.Key
	if op.Key > 0 {
		key = refKey(sc.Keys[op.Key-1])
	}
	arg := func() []byte {
		if op.Buf > 0 {
			b, _ := hex.DecodeString(sc.Bufs[op.Buf-1])
			return b
		}
		b, _ := hex.DecodeString(op.H)
		return b
	}
	want := ""
	switch op.K {
	case "entropy", "newseed", "genmn":
		return expectRandom(l, r)
	case "mnem":
		m, err := l.Mnemonic(arg())
		want = "=" + m
		if err != nil {
			want = "ERR"
		}
	case "ent":
		want = rb(l.Entropy(op.S))
	case "mba":
		want = rb(l.ByteArray(op.S, op.N != 0 && op.F))
	case "mvalid":
		_, err := l.Entropy(op.S)
		want = fmt.Sprint(err == nil)
	case "wix":
		i, ok := l.Ix[op.S]
		want = "none"
		if ok {
			want = fmt.Sprint(i)
		}
	case "wlist":
		want = strings.Join(l.W, " ")
	case "seed":
		want = hx(ref.Seed(op.S, op.S2))
	case "seedchk":
		want = rb(l.SeedOf(op.S, op.S2))
	case "dseed":
		s, err := l.SeedOf(op.S, op.S2)
		want = "=" + hx(s)
		if err != nil {
			want = "ERR"
		}
	case "master":
		want = rk(ref.MasterKey(arg()))
	case "root":
		want = rk(ref.RootFromSeedHex(op.S))
	case "m2root":
		s, err := l.SeedOf(op.S, op.S2)
		if err != nil {
			want = "ERR"
		} else {
			want = rk(ref.MasterKey(s))
		}
	case "child":
		want = rk(key.Child(op.I))
	case "chain":
		k := key
		for _, v := range op.V {
			c, err := k.Child(v)
			if err != nil {
				want += "ERR"
				break
			}
			want += c.Hex() + " "
			k = c
		}
	case "neuter":
		n := key.Neuter()
		want = n.Hex()
	case "nchild":
		n := key.Neuter()
		want = rk(n.Child(op.I))
	case "ser":
		want = rb(key.Serialize())
	case "b58", "str":
		want = key.B58()
	case "kvalid":
		want = fmt.Sprint(!key.Empty())
	case "kget":
		want = fmt.Sprintf("%08x %x %x %x %x %x %x %v", key.Version(), key[4:5], key[5:9], key[9:13], key[13:45], key[45:78], key[46:78], key.Private())
	case "setver":
		key.SetVersion(op.I)
		want = key.Hex()
	case "deser":
		want = rk(ref.Deserialize(arg()))
	case "b58deser":
		want = rk(ref.B58Deserialize(op.S))
	case "pubhex":
		want = key.PubHex()
	case "pvthex":
		want = key.PrivHex()
	case "addrhex":
		want = key.EthAddr()
	case "addrb58":
		want = key.B58Addr(byte(op.N))
	case "hash160":
		want = hx(ref.Hash160(arg()))
	case "cksum":
		want = hx(ref.Sha256d4(arg()))
	case "addck":
		a := arg()
		want = hx(append(append([]byte(nil), a...), ref.Sha256d4(a)...))
	case "expand":
		p, ok := ref.Decompress(arg())
		if !ok {
			return ""
		}
		want = hx(p.XY())
	case "valpriv":
		want = "ERR"
		if ref.ScalarOK(arg()) {
			want = "ok"
		}
	case "pvalid":
		_, err := ref.ParsePath(op.S)
		want = fmt.Sprint(err == nil)
	case "pvals":
		v, err := ref.ParsePath(op.S)
		want = "ERR"
		if err == nil {
			want = fmt.Sprint(append([]uint32{0}, v...))
		}
	case "pvalat":
		v, err := ref.ParsePath(op.S)
		v = append([]uint32{0}, v...)
		want = "ERR"
		if err == nil && op.N < len(v) {
			want = fmt.Sprint(v[op.N])
		}
	case "prepl":
		v, err := ref.ParsePath(op.S)
		want = "ERR"
		if err == nil && op.N > 0 && op.N <= len(v) {
			// Components are compared by value, not by spelling.
			if !strings.HasPrefix(r.res, "=") {
				break
			}
			got := strings.Split(ref.StripPath(r.res[1:]), "/")
			if len(got) != len(v)+1 || (got[0] != "m" && got[0] != "M") {
				want = "a path of the same depth"
				break
			}
			v[op.N-1] = op.I
			want = r.res
			// Where the usual spelling keeps the path readable, the result is
			// readable as a whole.
			usual := strings.Split(ref.StripPath(op.S), "/")
			usual[op.N] = fmt.Sprint(op.I)
			if op.I >= ref.Hardened {
				usual[op.N] = fmt.Sprintf("%d'", op.I-ref.Hardened)
			}
			if uv, err := ref.ParsePath(strings.Join(usual, "/")); err == nil && fmt.Sprint(uv) == fmt.Sprint(v) {
				if rv, err := ref.ParsePath(r.res[1:]); err != nil || fmt.Sprint(rv) != fmt.Sprint(v) {
					want = "a path that reads " + fmt.Sprint(v)
					break
				}
			}
			for i, c := range got[1:] {
				if pv, err := ref.ParsePath("m/" + c); err != nil || len(pv) != 1 || pv[0] != v[i] {
					want = fmt.Sprintf("component %d equal to %d", i+1, v[i])
				}
			}
		}
	case "pstr":
		want = "=" + ref.StripPath(op.S)
	case "derive", "derive1":
		want = pathList(ref.Derive(key, op.S))
	case "range":
		return expectRange(key, r)
	case "regdump":
		want = regBaseline
		if r.res != want {
			return "the registries differ from those of the first start: " + regDiff()
		}
	case "reglook":
		want = "ok"
	case "coin", "verpath", "coinok":
		want = "ok"
	case "clock", "setlist":
	case "store", "mstore":
		return expectStore(sc, l, r)
	case "load":
		return expectLoad(r)
	case "mload":
		return expectMload(l, r)
	default:
		panic("libsim: no expectation for " + op.K)
	}
	if r.res != want {
		return fmt.Sprintf("got %s, want %s", core.Short(r.res), core.Short(want))
	}
	return ""
}

// expectRange: the listed keys match their listed paths, one per index.
func expectRange(key ref.Key, r *result) string {
	op := r.op
	base, perr := ref.ParsePath(op.S)
	_ = base
	bad := op.J <= op.I || key.Empty() || perr != nil
	if r.res == "ERR" {
		if bad {
			return ""
		}
		// Successive derivation may legitimately fail.
		k := key
		for i := op.I; i < op.J; i++ {
			c, err := k.Child(i)
			if err != nil {
				return ""
			}
			k = c
		}
		// A sibling listing may fail at any index.
		for i := op.I; i < op.J; i++ {
			if _, err := key.Child(i); err != nil {
				return ""
			}
		}
		return "an error for a derivable range"
	}
	if bad {
		return fmt.Sprintf("no error for an invalid range [%d,%d) under %q, got %s", op.I, op.J, op.S, core.Short(r.res))
	}
	items := strings.Fields(r.res)
	if uint32(len(items)) != op.J-op.I {
		return fmt.Sprintf("%d keys for a range of %d", len(items), op.J-op.I)
	}
	prefix := ref.StripPath(op.S) + "/"
	for _, it := range items {
		p, kx, _ := strings.Cut(it, ":")
		if !strings.HasPrefix(p, prefix) {
			return fmt.Sprintf("listed path %q does not extend %q", p, op.S)
		}
		k := key
		for _, c := range strings.Split(p[len(prefix):], "/") {
			v, err := ref.ParsePath("m/" + c)
			if err != nil || len(v) != 1 {
				return fmt.Sprintf("listed path %q is malformed", p)
			}
			if k, err = k.Child(v[0]); err != nil {
				return fmt.Sprintf("a key is listed for %q, which cannot be derived", p)
			}
		}
		if k.Hex() != kx {
			return fmt.Sprintf("the key listed for %q is %s, want %s", p, kx, k.Hex())
		}
	}
	return ""
}

// expectRandom: an error, or exactly bytes that the source delivered to this
// very call.
func expectRandom(l *ref.List, r *result) string {
	op := r.op
	size, ok := 0, true
	switch op.K {
	case "newseed":
		size = 256
	case "entropy":
		size = op.N / 8
		ok = op.N%32 == 0 && op.N >= 128 && op.N <= 256
	case "genmn":
		size = op.N / 3 * 4
		ok = op.N%3 == 0 && op.N >= 12 && op.N <= 24
	}
	if !ok {
		if r.res != "ERR" {
			return fmt.Sprintf("size %d accepted: %s", op.N, core.Short(r.res))
		}
		return ""
	}
	if r.res == "ERR" {
		if !r.ctx.failed {
			return "an error although the source did not fail"
		}
		return ""
	}
	var val []byte
	if op.K == "genmn" {
		if !strings.HasPrefix(r.res, "=") {
			return "error together with a value: " + core.Short(r.res)
		}
		v, err := l.Entropy(r.res[1:])
		if err != nil {
			return "generated an invalid mnemonic: " + r.res[1:]
		}
		if len(ref.Words(r.res[1:])) != op.N {
			return fmt.Sprintf("%d words instead of %d", len(ref.Words(r.res[1:])), op.N)
		}
		if m, _ := l.Mnemonic(v); m != r.res[1:] {
			return fmt.Sprintf("not the BIP-39 encoding: %q", r.res[1:])
		}
		val = v
	} else {
		v, err := hex.DecodeString(r.res)
		if err != nil {
			return "unexpected result " + r.res
		}
		val = v
	}
	if len(val) != size {
		return fmt.Sprintf("%d bytes instead of %d", len(val), size)
	}
	if !bytes.Contains(r.ctx.deliv, val) {
		return fmt.Sprintf("success with bytes the source did not deliver to this call: %s (delivered %d bytes: %s, source failed: %v)",
			core.Short(hx(val)), len(r.ctx.deliv), core.Short(hx(r.ctx.deliv)), r.ctx.failed)
	}
	return ""
}
