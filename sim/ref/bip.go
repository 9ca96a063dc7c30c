package ref

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/crypto/ripemd160"
	"golang.org/x/crypto/sha3"
)

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

var ErrRef = errors.New("reference: not allowed")

// ---------------------------------------------------------------- hashes

func Sha256d4(b []byte) []byte {
	h := sha256.Sum256(b)
	h = sha256.Sum256(h[:])
	return append([]byte(nil), h[:4]...)
}

func Hash160(b []byte) []byte {
	h := sha256.Sum256(b)
	r := ripemd160.New()
	r.Write(h[:])
	return r.Sum(nil)
}

func hmac512(key []byte, parts ...[]byte) []byte {
	h := hmac.New(sha512.New, key)
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

// ---------------------------------------------------------------- base58

const b58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func B58Encode(b []byte) string {
	var digits []byte // little-endian base 58
	for _, x := range b {
		c := int(x)
		for i := range digits {
			c += int(digits[i]) << 8
			digits[i] = byte(c % 58)
			c /= 58
		}
		for c > 0 {
			digits = append(digits, byte(c%58))
			c /= 58
		}
	}
	var sb strings.Builder
	for _, x := range b {
		if x != 0 {
			break
		}
		sb.WriteByte('1')
	}
	for i := len(digits) - 1; i >= 0; i-- {
		sb.WriteByte(b58[digits[i]])
	}
	return sb.String()
}

// B58Decode decodes; ok is false when a character is not in the alphabet.
func B58Decode(s string) (out []byte, ok bool) {
	var digits []byte // little-endian base 256
	for i := 0; i < len(s); i++ {
		c := strings.IndexByte(b58, s[i])
		if c < 0 {
			return nil, false
		}
		for j := range digits {
			c += int(digits[j]) * 58
			digits[j] = byte(c)
			c >>= 8
		}
		for c > 0 {
			digits = append(digits, byte(c))
			c >>= 8
		}
	}
	for i := 0; i < len(s) && s[i] == '1'; i++ {
		out = append(out, 0)
	}
	for i := len(digits) - 1; i >= 0; i-- {
		out = append(out, digits[i])
	}
	return out, true
}

// ---------------------------------------------------------------- BIP-39

// Words splits a mnemonic the way a reader of the sentence would.
func Words(m string) []string { return strings.FieldsFunc(m, unicode.IsSpace) }

// List is a word list with its reverse index (last position wins).
type List struct {
	Name string
	W    []string
	Ix   map[string]int
}

func NewList(name string, w []string) *List {
	l := &List{Name: name, W: w, Ix: map[string]int{}}
	for i, x := range w {
		l.Ix[x] = i
	}
	return l
}

func bitsOf(b []byte) []byte {
	o := make([]byte, 0, len(b)*8)
	for _, x := range b {
		for i := 7; i >= 0; i-- {
			o = append(o, x>>i&1)
		}
	}
	return o
}

func EntropyOK(n int) bool { return n >= 16 && n <= 32 && n%4 == 0 }

// Mnemonic encodes entropy.
func (l *List) Mnemonic(ent []byte) (string, error) {
	if !EntropyOK(len(ent)) {
		return "", ErrRef
	}
	h := sha256.Sum256(ent)
	bs := append(bitsOf(ent), bitsOf(h[:])[:len(ent)/4]...)
	var w []string
	for i := 0; i < len(bs); i += 11 {
		v := 0
		for _, b := range bs[i : i+11] {
			v = v<<1 | int(b)
		}
		w = append(w, l.W[v])
	}
	return strings.Join(w, " "), nil
}

// Entropy decodes a mnemonic.
func (l *List) Entropy(m string) ([]byte, error) {
	ws := Words(m)
	n := len(ws)
	if n < 12 || n > 24 || n%3 != 0 {
		return nil, ErrRef
	}
	var bs []byte
	for _, w := range ws {
		v, ok := l.Ix[w]
		if !ok {
			return nil, ErrRef
		}
		for i := 10; i >= 0; i-- {
			bs = append(bs, byte(v>>i&1))
		}
	}
	ne := n / 3 * 32
	ent := make([]byte, ne/8)
	for i := 0; i < ne; i++ {
		ent[i/8] |= bs[i] << (7 - i%8)
	}
	h := sha256.Sum256(ent)
	hb := bitsOf(h[:])
	for i := ne; i < len(bs); i++ {
		if bs[i] != hb[i-ne] {
			return nil, ErrRef
		}
	}
	return ent, nil
}

// ByteArray is entropy and checksum as one right-aligned number.
func (l *List) ByteArray(m string, raw bool) ([]byte, error) {
	ent, err := l.Entropy(m)
	if err != nil || raw {
		return ent, err
	}
	h := sha256.Sum256(ent)
	bs := append(bitsOf(ent), bitsOf(h[:])[:len(ent)/4]...)
	out := make([]byte, len(ent)+1)
	for i := 0; i < len(bs); i++ {
		pos := len(out)*8 - len(bs) + i
		out[pos/8] |= bs[i] << (7 - pos%8)
	}
	return out, nil
}

// Seed is PBKDF2-HMAC-SHA512 with 2048 rounds over exactly these bytes.
func Seed(m, pass string) []byte {
	k := m + "\x00" + pass
	if s, ok := seedCache[k]; ok {
		return append([]byte(nil), s...)
	}
	h := hmac.New(sha512.New, []byte(m))
	h.Write([]byte("mnemonic" + pass))
	h.Write([]byte{0, 0, 0, 1})
	u := h.Sum(nil)
	t := append([]byte(nil), u...)
	for i := 1; i < 2048; i++ {
		h.Reset()
		h.Write(u)
		u = h.Sum(u[:0])
		for j := range t {
			t[j] ^= u[j]
		}
	}
	if len(seedCache) > 4096 {
		seedCache = map[string][]byte{}
	}
	seedCache[k] = append([]byte(nil), t...)
	return t
}

var seedCache = map[string][]byte{}

// SeedOf is the seed of a valid mnemonic, whitespace between words immaterial.
func (l *List) SeedOf(m, pass string) ([]byte, error) {
	if _, err := l.Entropy(m); err != nil {
		return nil, err
	}
	return Seed(strings.Join(Words(m), " "), pass), nil
}

// ---------------------------------------------------------------- BIP-32

// Key is an extended key in its 78-byte form.
type Key [78]byte

// PvtToPub pairs the registered private and public version bytes (SLIP-132).
var PvtToPub = map[uint32]uint32{
	0x0488ade4: 0x0488b21e, 0x049d7878: 0x049d7cb2, 0x04b2430c: 0x04b24746,
	0x0295b005: 0x0295b43f, 0x02aa7a99: 0x02aa7ed3, 0x04358394: 0x043587cf,
	0x044a4e28: 0x044a5262, 0x045f18bc: 0x045f1cf6, 0x024285b5: 0x024289ef,
	0x02575048: 0x02575483, 0x019d9cfe: 0x019da462, 0x01b26792: 0x01b26ef6,
	0x0436ef7d: 0x0436f6e1, 0x426c6b73: 0x42696720, 0x03e25945: 0x03e25d7e,
}

var PubRegistered = map[uint32]bool{}

// PvtVersions lists the registered private versions in a fixed order.
var PvtVersions = []uint32{0x0488ade4, 0x049d7878, 0x04b2430c, 0x0295b005, 0x02aa7a99, 0x04358394,
	0x044a4e28, 0x045f18bc, 0x024285b5, 0x02575048, 0x019d9cfe, 0x01b26792, 0x0436ef7d, 0x426c6b73, 0x03e25945}

func init() {
	for _, p := range PvtToPub {
		PubRegistered[p] = true
	}
	if len(PvtVersions) != len(PvtToPub) {
		panic("ref: version tables differ")
	}
}

const Hardened = uint32(1) << 31

func (k *Key) Version() uint32     { return binary.BigEndian.Uint32(k[0:4]) }
func (k *Key) SetVersion(v uint32) { binary.BigEndian.PutUint32(k[0:4], v) }
func (k *Key) Depth() byte         { return k[4] }
func (k *Key) Private() bool       { return k[45] == 0 }
func (k *Key) Hex() string         { return hex.EncodeToString(k[:]) }

func KeyFromHex(s string) Key {
	var k Key
	b := unhex(s)
	if len(b) != 78 {
		panic("ref: key length")
	}
	copy(k[:], b)
	return k
}

// Usable reports whether the key is one the reference can compute with.
func (k *Key) Usable() bool {
	if k.Private() {
		return ScalarOK(k[46:])
	}
	_, ok := Decompress(k[45:])
	return ok
}

// Pub is the compressed public key.
func (k *Key) Pub() []byte {
	if k.Private() {
		return pubOf(k[46:78])
	}
	return append([]byte(nil), k[45:78]...)
}

var pubCache = map[[32]byte][33]byte{}

func pubOf(pv []byte) []byte {
	var c [32]byte
	copy(c[:], pv)
	if p, ok := pubCache[c]; ok {
		return append([]byte(nil), p[:]...)
	}
	if len(pubCache) > 1<<14 {
		pubCache = map[[32]byte][33]byte{}
	}
	b := MulG(pv).Compress()
	pubCache[c] = [33]byte(b)
	return b
}

func MasterKey(seed []byte) (Key, error) {
	var k Key
	i := hmac512([]byte("Bitcoin seed"), seed)
	if !ScalarOK(i[:32]) {
		return k, ErrRef
	}
	k.SetVersion(0x0488ade4)
	copy(k[13:45], i[32:])
	copy(k[46:], i[:32])
	return k, nil
}

// Child derives a child key; version bytes must be registered for the kind.
func (k *Key) Child(ix uint32) (Key, error) {
	var c Key
	var ixb [4]byte
	binary.BigEndian.PutUint32(ixb[:], ix)
	if k.Depth() == 255 {
		return c, ErrRef
	}
	if k.Private() {
		if _, ok := PvtToPub[k.Version()]; !ok {
			return c, ErrRef
		}
	} else if ix >= Hardened || !PubRegistered[k.Version()] {
		return c, ErrRef
	}
	pub := k.Pub()
	var i []byte
	if ix >= Hardened {
		i = hmac512(k[13:45], []byte{0}, k[46:78], ixb[:])
	} else {
		i = hmac512(k[13:45], pub, ixb[:])
	}
	l := limbs(i[:32])
	if geq(&l, &orderN) {
		return c, ErrRef
	}
	copy(c[0:4], k[0:4])
	c[4] = k[4] + 1
	copy(c[5:9], Hash160(pub)[:4])
	copy(c[9:13], ixb[:])
	copy(c[13:45], i[32:])
	if k.Private() {
		s := AddScalars(i[:32], k[46:78])
		if !ScalarOK(s) {
			return c, ErrRef
		}
		copy(c[46:], s)
	} else {
		p, ok := Decompress(k[45:])
		if !ok {
			return c, ErrRef
		}
		q := AddPoints(MulG(i[:32]), p)
		if q.Inf {
			return c, ErrRef
		}
		copy(c[45:], q.Compress())
	}
	return c, nil
}

// Neuter is the public version of the key; unregistered version bytes become
// the default public ones, as the code's documentation says.
func (k *Key) Neuter() Key {
	n := *k
	v := k.Version()
	if k.Private() {
		p, ok := PvtToPub[v]
		if !ok {
			p = 0x0488b21e
		}
		n.SetVersion(p)
		copy(n[45:], k.Pub())
	} else if !PubRegistered[v] {
		n.SetVersion(0x0488b21e)
	}
	return n
}

func (k *Key) Empty() bool { return *k == Key{} }

// Serialize is the 82-byte form.
func (k *Key) Serialize() ([]byte, error) {
	if k.Empty() {
		return nil, ErrRef
	}
	return append(append([]byte(nil), k[:]...), Sha256d4(k[:])...), nil
}

func (k *Key) B58() string {
	b, err := k.Serialize()
	if err != nil {
		return ""
	}
	return B58Encode(b)
}

// Deserialize accepts exactly 82 bytes with the right checksum.
func Deserialize(b []byte) (Key, error) {
	var k Key
	if len(b) != 82 {
		return k, ErrRef
	}
	c := Sha256d4(b[:78])
	for i := range c {
		if c[i] != b[78+i] {
			return k, ErrRef
		}
	}
	copy(k[:], b)
	return k, nil
}

func B58Deserialize(s string) (Key, error) {
	b, ok := B58Decode(s)
	if !ok {
		return Key{}, ErrRef
	}
	return Deserialize(b)
}

func (k *Key) PrivHex() string {
	if !k.Private() {
		return ""
	}
	return hex.EncodeToString(k[46:78])
}

func (k *Key) PubHex() string { return hex.EncodeToString(k.Pub()) }

// ---------------------------------------------------------------- addresses

// EthAddr is the last 20 bytes of keccak256 over the fixed-width coordinates.
func (k *Key) EthAddr() string {
	p, ok := Decompress(k.Pub())
	if !ok {
		return "?"
	}
	h := sha3.NewLegacyKeccak256()
	h.Write(p.XY())
	return hex.EncodeToString(h.Sum(nil)[12:])
}

// B58Addr is version || hash160(pub) || checksum in Base58.
func (k *Key) B58Addr(ver byte) string {
	b := append([]byte{ver}, Hash160(k.Pub())...)
	return B58Encode(append(b, Sha256d4(b)...))
}

// ---------------------------------------------------------------- paths

// StripPath removes the whitespace that paths may contain.
func StripPath(p string) string {
	return strings.Map(func(r rune) rune {
		switch r {
		case ' ', '\t', '\n', '\f', '\r':
			return -1
		}
		return r
	}, p)
}

// ParsePath gives the component values of a path (without the leading m).
func ParsePath(p string) ([]uint32, error) {
	s := StripPath(p)
	parts := strings.Split(s, "/")
	if parts[0] != "m" && parts[0] != "M" {
		return nil, ErrRef
	}
	plain := false
	var out []uint32
	for _, c := range parts[1:] {
		h := strings.HasSuffix(c, "'")
		d := strings.TrimSuffix(c, "'")
		if d == "" {
			return nil, ErrRef
		}
		for _, r := range d {
			if r < '0' || r > '9' {
				return nil, ErrRef
			}
		}
		if h && plain {
			return nil, ErrRef
		}
		plain = plain || !h
		d = strings.TrimLeft(d, "0")
		if d == "" {
			d = "0"
		}
		if len(d) > 10 {
			return nil, ErrRef
		}
		v, err := strconv.ParseUint(d, 10, 64)
		if err != nil {
			return nil, ErrRef
		}
		if h {
			if v >= uint64(Hardened) {
				return nil, ErrRef
			}
			v += uint64(Hardened)
		}
		if v > 0xffffffff {
			return nil, ErrRef
		}
		out = append(out, uint32(v))
	}
	return out, nil
}

// FmtIndex renders a component.
func FmtIndex(v uint32) string {
	if v >= Hardened {
		return fmt.Sprintf("%d'", v-Hardened)
	}
	return fmt.Sprintf("%d", v)
}

// PathKey is a listed key.
type PathKey struct {
	Path string
	Key  Key
}

// Derive lists every prefix of the path with its key.
func Derive(root Key, p string) ([]PathKey, error) {
	if root.Empty() || !root.Private() || root.Depth() != 0 {
		return nil, ErrRef
	}
	vals, err := ParsePath(p)
	if err != nil {
		return nil, err
	}
	return Chain("m", root, vals)
}

// Chain derives successively from key at path.
func Chain(path string, key Key, vals []uint32) ([]PathKey, error) {
	out := []PathKey{{path, key}}
	for _, v := range vals {
		c, err := key.Child(v)
		if err != nil {
			return nil, err
		}
		path += "/" + FmtIndex(v)
		key = c
		out = append(out, PathKey{path, key})
	}
	return out, nil
}

// RootFromSeedHex is the master key of a hex seed of at least 16 bytes.
func RootFromSeedHex(s string) (Key, error) {
	b, err := hex.DecodeString(s)
	if err != nil || len(b) < 16 {
		return Key{}, ErrRef
	}
	return MasterKey(b)
}

// VersionKnown reports whether the version bytes are registered.
func (k *Key) VersionKnown() bool {
	v := k.Version()
	_, ok := PvtToPub[v]
	return ok || PubRegistered[v]
}

// Known says whether version bytes are registered.
func Known(v uint32) bool {
	_, ok := PvtToPub[v]
	return ok || PubRegistered[v]
}
