package main

import (
	"container/heap"
	"fmt"
	"strings"
	"time"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/util"
	"github.com/mearaj/bips/zzverif/core"
	"github.com/mearaj/bips/zzverif/ref"
	"github.com/mearaj/bips/zzverif/simrt"
)

// The network simulation of C13: one signing node that holds private account
// keys and several watch-only nodes that receive the extended public keys over
// a faulty network and keep them on a faulty disk.

type event struct {
	at  float64
	seq int
	f   func()
}

type eventHeap []event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || h[i].at == h[j].at && h[i].seq < h[j].seq
}
func (h eventHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *eventHeap) Push(x any)   { *h = append(*h, x.(event)) }
func (h *eventHeap) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

type node struct {
	id   int
	up   bool
	disk *disk
	keys []*bip32.Key // by account; nil when unknown
}

type network struct {
	sc    *core.Scenario
	o     *core.Outcome
	now   float64
	seq   int
	q     eventHeap
	nodes []*node
	cut   [8][8]bool
	acct  []ref.Key // private account keys
	neut  []ref.Key
	last  float64 // latest scheduled delivery, to see reordering
	dead  bool
}

func (n *network) after(d float64, f func()) {
	n.seq++
	heap.Push(&n.q, event{n.now + d, n.seq, f})
}

func (n *network) fail(class, f string, a ...any) {
	n.o.Fail(class, f, a...)
	n.dead = true
}

func runNet(sc *core.Scenario, o *core.Outcome) {
	n := &network{sc: sc, o: o}
	defer func() {
		if v := recover(); v != nil {
			o.Fail("panic", "panic: %v", v)
		}
	}()
	if err := simrt.Restart(uint64(sc.Ints["mapseed"])); err != nil {
		o.Fail("start-up", "the library does not start: %v", err)
		return
	}
	for _, k := range sc.Keys {
		rk := refKey(k)
		n.acct = append(n.acct, rk)
		n.neut = append(n.neut, rk.Neuter())
	}
	for i := 0; i < sc.Ints["nodes"]; i++ {
		nd := &node{id: i, up: true, disk: &disk{}, keys: make([]*bip32.Key, len(n.acct))}
		n.nodes = append(n.nodes, nd)
	}
	for a := range n.acct {
		k := bip32.Key(n.acct[a])
		n.nodes[0].keys[a] = &k
		n.store(n.nodes[0], a, true)
	}
	for i := range sc.Steps {
		st := sc.Steps[i]
		n.seq++
		heap.Push(&n.q, event{st.MS, n.seq, func() { n.step(st) }})
	}
	n.drain()
	if n.dead {
		return
	}
	// Faults stop: everything heals, every node comes back, missing keys are
	// sent again; now everybody must obtain everything.
	n.cut = [8][8]bool{}
	for _, nd := range n.nodes {
		if !nd.up {
			n.restart(nd)
		}
	}
	for _, nd := range n.nodes[1:] {
		for a := range n.acct {
			if nd.keys[a] == nil {
				n.send(0, nd.id, a, 1, "")
			}
		}
	}
	n.drain()
	if n.dead {
		return
	}
	for _, nd := range n.nodes {
		for a := range n.acct {
			if nd.keys[a] == nil {
				n.fail("never-obtained", "node %d never obtained account %d although the faults stopped", nd.id, a)
				return
			}
			for i := 0; i < sc.Ints["final"]; i++ {
				n.use(nd, a, []uint32{uint32(i & 1), uint32(sc.Ints["base"] + i)})
			}
			if n.dead {
				return
			}
		}
	}
	o.SimTime = time.Duration(n.now * float64(time.Millisecond))
	o.Shape = simrt.Mix2(o.Shape, o.Hash)
	o.Steps = n.seq
}

func (n *network) drain() {
	for len(n.q) > 0 && !n.dead {
		e := heap.Pop(&n.q).(event)
		n.now = e.at
		n.o.Ops++
		e.f()
	}
}

func (n *network) step(st core.Step) {
	A, B := st.A%len(n.nodes), st.B%len(n.nodes)
	a := st.C % len(n.acct)
	switch st.K {
	case "send":
		n.send(B, A, a, float64(st.D), st.F)
	case "part":
		n.cut[A][B], n.cut[B][A] = true, true
		n.o.Fault("net.partition")
	case "heal":
		n.cut[A][B], n.cut[B][A] = false, false
	case "crash":
		nd := n.nodes[A]
		if nd.up {
			n.o.Fault("node.crash")
			nd.up = false
			for i := range nd.keys {
				nd.keys[i] = nil
			}
			nd.disk.crash(simrt.NewRand(simrt.Mix2(n.sc.Seed, uint64(n.seq))))
		}
	case "restart":
		nd := n.nodes[A]
		if !nd.up {
			n.restart(nd)
		}
	case "use":
		var v []uint32
		for _, s := range strings.Split(st.S, "/") {
			v = append(v, uint32(atoi(s)))
		}
		nd := n.nodes[A]
		if nd.up && nd.keys[a] != nil {
			n.use(nd, a, v)
		}
	case "media": // a fault on the medium of a node's stored record
		nd := n.nodes[A]
		if A != 0 {
			s := &nd.disk.slots[a%nSlots]
			b := nd.disk.damage(clone(s.cur[:s.nCur]), st.F)
			nd.disk.write(a, b, true)
		}
	}
}

// store writes a node's account key to its disk.
func (n *network) store(nd *node, a int, sync bool) {
	k := nd.keys[a]
	var b []byte
	if a%2 == 0 {
		b = []byte(k.B58Serialize())
	} else {
		var err error
		if b, err = k.Serialize(); err != nil {
			n.fail("store", "node %d cannot serialize account %d: %v", nd.id, a, err)
			return
		}
	}
	nd.disk.write(a, b, sync)
}

// restart loads what the node's disk still has.
func (n *network) restart(nd *node) {
	n.o.Fault("node.restart")
	if err := simrt.Restart(uint64(n.sc.Ints["mapseed"] + n.seq)); err != nil {
		n.fail("start-up", "the library does not start: %v", err)
		return
	}
	nd.up = true
	for a := range n.acct {
		b := nd.disk.read(a, 0)
		if len(b) == 0 {
			continue
		}
		var k bip32.Key
		var err error
		if a%2 == 0 {
			k, err = bip32.B58Deserialize(string(b))
		} else {
			k, err = bip32.Deserialize(b)
		}
		want := n.neut[a].Hex()
		if nd.id == 0 {
			want = n.acct[a].Hex()
		}
		if err != nil {
			core.Probe("net.stored_key_refused")
			n.o.Event("%.3f node %d refuses stored account %d", n.now, nd.id, a)
			continue
		}
		if keyHex(k) != want && n.isOther(keyHex(k), a, nd.id == 0) {
			core.Probe("net.became_another_account")
			n.o.Event("%.3f node %d finds another account in place of %d", n.now, nd.id, a)
			continue
		}
		if keyHex(k) != want {
			n.fail("wrong-key-loaded", "node %d restarted with account %d = %s, which was stored as %s", nd.id, a, keyHex(k), want)
			return
		}
		kk := k
		nd.keys[a] = &kk
		n.o.Event("%.3f node %d loads account %d", n.now, nd.id, a)
	}
}

// send transmits an account's extended public key; faults are decided by spec.
func (n *network) send(from, to, a int, delay float64, spec string) {
	src := n.nodes[from]
	if to == 0 || from == to || !src.up || src.keys[a] == nil {
		return
	}
	pub := src.keys[a].PublicKeyExtended()
	msg := pub.B58Serialize()
	if keyHex(pub) != n.neut[a].Hex() {
		n.fail("wrong-neuter", "node %d sends %s for account %d, want %s", from, keyHex(pub), a, n.neut[a].Hex())
		return
	}
	copies := 1
	for _, f := range strings.Split(spec, ",") {
		name, arg, _ := strings.Cut(f, ":")
		switch name {
		case "":
		case "drop":
			n.o.Fault("net.lost")
			copies = 0
		case "dup":
			n.o.Fault("net.duplicated")
			copies = 2
		case "late":
			n.o.Fault("net.delayed")
			delay += float64(atoi(arg))
		default:
			m := string(n.nodes[to].disk.damage([]byte(msg), f))
			if m != msg {
				n.o.Fault("net.corrupted")
			}
			msg = m
		}
	}
	for c := 0; c < copies; c++ {
		d := delay * float64(1+c)
		if n.now+d < n.last {
			n.o.Fault("net.reordered")
		} else {
			n.last = n.now + d
		}
		n.after(d, func() { n.deliver(from, to, a, msg) })
	}
}

func (n *network) deliver(from, to, a int, msg string) {
	dst := n.nodes[to]
	if n.cut[from][to] || !dst.up {
		n.o.Event("%.3f message %d->%d lost", n.now, from, to)
		core.Probe("net.lost_to_partition_or_crash")
		return
	}
	k, err := bip32.B58Deserialize(msg)
	want, werr := ref.B58Deserialize(msg)
	if (err == nil) != (werr == nil) {
		n.fail("accept", "node %d: message %q: error %v, want error %v", to, msg, err, werr)
		return
	}
	if err != nil {
		core.Probe("net.damaged_message_refused")
		n.o.Event("%.3f node %d refuses account %d from %d", n.now, to, a, from)
		return
	}
	if keyHex(k) == want.Hex() && keyHex(k) != n.neut[a].Hex() && n.isOther(keyHex(k), a, false) {
		core.Probe("net.became_another_account")
		return
	}
	if keyHex(k) != want.Hex() || keyHex(k) != n.neut[a].Hex() {
		n.fail("wrong-key-accepted", "node %d accepts %s for account %d, want %s", to, keyHex(k), a, n.neut[a].Hex())
		return
	}
	n.o.Event("%.3f node %d accepts account %d from %d", n.now, to, a, from)
	kk := k
	dst.keys[a] = &kk
	n.store(dst, a, n.seq%3 != 0)
}

// isOther: the fault put the whole intact record of another account, whose
// beginning is the same, in this one's place; no record says whose it is.
func (n *network) isOther(k string, a int, private bool) bool {
	for b := range n.acct {
		if b != a && (!private && k == n.neut[b].Hex() || private && k == n.acct[b].Hex()) {
			return true
		}
	}
	return false
}

// use derives one address at a node and compares it with what the signing
// node's private key and the reference give.
func (n *network) use(nd *node, a int, vals []uint32) {
	k := *nd.keys[a]
	base := n.neut[a]
	priv := bip32.Key(n.acct[a])
	if nd.id == 0 {
		base = n.acct[a]
	}
	rkey := base
	sref, refused := n.acct[a], false // what the signing node does
	for i, v := range vals {
		c, err := k.NewChildKey(v)
		pc, perr := priv.NewChildKey(v)
		rc, rerr := rkey.Child(v)
		if v >= ref.Hardened && nd.id != 0 {
			if err == nil {
				n.fail("hardened-child", "watch-only node %d obtained the hardened child %d of account %d: %s", nd.id, v, a, keyHex(c))
			} else {
				core.Probe("net.hardened_child_refused")
			}
			return
		}
		if !refused {
			// An account whose version bytes nobody registered has no children
			// at the signing node; its public side has the default version.
			if sc, serr := sref.Child(v); serr == nil {
				sref = sc
			} else if refused = !ref.Known(sref.Version()); refused {
				if perr == nil {
					n.fail("derive-error", "account %d, path %v at %d: a child of a key with unknown version bytes: %s", a, vals, i, keyHex(pc))
					return
				}
				core.Probe("net.unknown_version_account")
			}
		}
		if refused {
			perr = err
			pc = priv
		}
		if (err == nil) != (rerr == nil) || (perr == nil) != (err == nil) {
			n.fail("derive-error", "node %d, account %d, path %v at %d: error %v, signer's %v, want %v", nd.id, a, vals, i, err, perr, rerr)
			return
		}
		if err != nil {
			core.Probe("net.underivable")
			return
		}
		k, priv, rkey = c, pc, rc
	}
	want := rkey
	if refused { // only the watching nodes have this key
		priv = k
	}
	pn := priv.PublicKeyExtended()
	if nd.id != 0 {
		if h := k.PrivateKeyHex(); h != "" || k.IsPrivate() {
			n.fail("private-material", "watch-only node %d holds private key material for account %d path %v: %s", nd.id, a, vals, h)
			return
		}
		if keyHex(k) != keyHex(pn) {
			n.fail("watcher-disagrees", "account %d path %v: node %d has %s, the signer's is %s", a, vals, nd.id, keyHex(k), keyHex(pn))
			return
		}
	}
	if keyHex(k) != want.Hex() {
		n.fail("wrong-key", "node %d, account %d path %v: %s, want %s", nd.id, a, vals, keyHex(k), want.Hex())
		return
	}
	kp := util.KeyPath{Path: "m", Key: k}
	pp := util.KeyPath{Path: "m", Key: priv}
	ver := byte(a * 5)
	got := [3]string{kp.AddrHex(), kp.AddrP2SH(ver), k.PublicKeyHex()}
	sig := [3]string{pp.AddrHex(), pp.AddrP2SH(ver), priv.PublicKeyHex()}
	exp := [3]string{want.EthAddr(), want.B58Addr(ver), want.PubHex()}
	if got != sig {
		n.fail("watcher-disagrees", "account %d path %v: node %d shows %v, the signer %v", a, vals, nd.id, got, sig)
		return
	}
	if got != exp {
		n.fail("wrong-address", "account %d path %v: node %d shows %v, want %v", a, vals, nd.id, got, exp)
		return
	}
	n.o.Event("%.3f node %d account %d %v %s", n.now, nd.id, a, vals, got[1])
}

var _ = fmt.Sprint
