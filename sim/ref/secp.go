// Package ref is the reference model: a small independent implementation of
// what the code under test promises (BIP-32, BIP-39, Base58Check, SLIP-132
// version pairs, Ethereum-style addresses, derivation paths). It shares no
// code with the repository; group arithmetic is its own.
package ref

import "math/bits"

// fe is an element of the secp256k1 field, little-endian limbs, reduced.
type fe [4]uint64

var feP = fe{0xFFFFFFFEFFFFFC2F, 0xFFFFFFFFFFFFFFFF, 0xFFFFFFFFFFFFFFFF, 0xFFFFFFFFFFFFFFFF}

const feC = 0x1000003D1

func (a *fe) isZero() bool { return a[0]|a[1]|a[2]|a[3] == 0 }

func geq(a, b *[4]uint64) bool {
	for i := 3; i >= 0; i-- {
		if a[i] != b[i] {
			return a[i] > b[i]
		}
	}
	return true
}

func sub4(a, b *[4]uint64) (r [4]uint64) {
	var c uint64
	for i := 0; i < 4; i++ {
		r[i], c = bits.Sub64(a[i], b[i], c)
	}
	return
}

func feAdd(a, b fe) fe {
	var r fe
	var c uint64
	for i := 0; i < 4; i++ {
		r[i], c = bits.Add64(a[i], b[i], c)
	}
	if c != 0 || geq((*[4]uint64)(&r), (*[4]uint64)(&feP)) {
		r = fe(sub4((*[4]uint64)(&r), (*[4]uint64)(&feP)))
	}
	return r
}

func feSub(a, b fe) fe {
	var r fe
	var c uint64
	for i := 0; i < 4; i++ {
		r[i], c = bits.Sub64(a[i], b[i], c)
	}
	if c != 0 {
		c = 0
		for i := 0; i < 4; i++ {
			r[i], c = bits.Add64(r[i], feP[i], c)
		}
	}
	return r
}

func feNeg(a fe) fe { return feSub(fe{}, a) }

func feMul(a, b fe) fe {
	var t [8]uint64
	for i := 0; i < 4; i++ {
		var carry uint64
		for j := 0; j < 4; j++ {
			hi, lo := bits.Mul64(a[i], b[j])
			var c uint64
			lo, c = bits.Add64(lo, t[i+j], 0)
			hi += c
			lo, c = bits.Add64(lo, carry, 0)
			hi += c
			t[i+j] = lo
			carry = hi
		}
		t[i+4] = carry
	}
	// Fold the high half: 2^256 = feC (mod p).
	var r [4]uint64
	var carry uint64
	for i := 0; i < 4; i++ {
		hi, lo := bits.Mul64(t[i+4], feC)
		var c uint64
		lo, c = bits.Add64(lo, t[i], 0)
		hi += c
		lo, c = bits.Add64(lo, carry, 0)
		hi += c
		r[i] = lo
		carry = hi
	}
	for carry != 0 {
		hi, lo := bits.Mul64(carry, feC)
		var c uint64
		r[0], c = bits.Add64(r[0], lo, 0)
		r[1], c = bits.Add64(r[1], hi, c)
		r[2], c = bits.Add64(r[2], 0, c)
		r[3], c = bits.Add64(r[3], 0, c)
		carry = c
	}
	if geq(&r, (*[4]uint64)(&feP)) {
		r = sub4(&r, (*[4]uint64)(&feP))
	}
	return fe(r)
}

func feSq(a fe) fe { return feMul(a, a) }

func fePow(a fe, e [4]uint64) fe {
	r := fe{1}
	for i := 255; i >= 0; i-- {
		r = feSq(r)
		if e[i/64]>>(i%64)&1 == 1 {
			r = feMul(r, a)
		}
	}
	return r
}

func feInv(a fe) fe {
	e := [4]uint64(feP)
	e[0] -= 2
	return fePow(a, e)
}

// feSqrt returns a square root of a and whether there is one.
func feSqrt(a fe) (fe, bool) {
	// (p+1)/4
	e := [4]uint64{0xFFFFFFFFBFFFFF0C, 0xFFFFFFFFFFFFFFFF, 0xFFFFFFFFFFFFFFFF, 0x3FFFFFFFFFFFFFFF}
	r := fePow(a, e)
	return r, feSq(r) == a
}

func limbs(b []byte) (r [4]uint64) {
	for i := 0; i < 32; i++ {
		r[(31-i)/8] |= uint64(b[i]) << (8 * ((31 - i) % 8))
	}
	return
}

func unlimbs(r [4]uint64) (b [32]byte) {
	for i := 0; i < 32; i++ {
		b[i] = byte(r[(31-i)/8] >> (8 * ((31 - i) % 8)))
	}
	return
}

// Point is an affine point; Inf marks infinity.
type Point struct {
	X, Y fe
	Inf  bool
}

type jac struct{ x, y, z fe }

func (p Point) jac() jac {
	if p.Inf {
		return jac{fe{1}, fe{1}, fe{}}
	}
	return jac{p.X, p.Y, fe{1}}
}

func (j jac) affine() Point {
	if j.z.isZero() {
		return Point{Inf: true}
	}
	zi := feInv(j.z)
	z2 := feSq(zi)
	return Point{X: feMul(j.x, z2), Y: feMul(j.y, feMul(z2, zi))}
}

func jdbl(p jac) jac {
	if p.z.isZero() || p.y.isZero() {
		return jac{fe{1}, fe{1}, fe{}}
	}
	a := feSq(p.x)
	b := feSq(p.y)
	c := feSq(b)
	t := feAdd(p.x, b)
	d := feSub(feSub(feSq(t), a), c)
	d = feAdd(d, d)
	e := feAdd(feAdd(a, a), a)
	f := feSq(e)
	x := feSub(f, feAdd(d, d))
	c8 := feAdd(c, c)
	c8 = feAdd(c8, c8)
	c8 = feAdd(c8, c8)
	y := feSub(feMul(e, feSub(d, x)), c8)
	z := feMul(p.y, p.z)
	return jac{x, y, feAdd(z, z)}
}

func jadd(p, q jac) jac {
	if p.z.isZero() {
		return q
	}
	if q.z.isZero() {
		return p
	}
	z1z1 := feSq(p.z)
	z2z2 := feSq(q.z)
	u1 := feMul(p.x, z2z2)
	u2 := feMul(q.x, z1z1)
	s1 := feMul(feMul(p.y, q.z), z2z2)
	s2 := feMul(feMul(q.y, p.z), z1z1)
	h := feSub(u2, u1)
	r := feSub(s2, s1)
	if h.isZero() {
		if r.isZero() {
			return jdbl(p)
		}
		return jac{fe{1}, fe{1}, fe{}}
	}
	h2 := feSq(h)
	h3 := feMul(h2, h)
	v := feMul(u1, h2)
	x := feSub(feSub(feSq(r), h3), feAdd(v, v))
	y := feSub(feMul(r, feSub(v, x)), feMul(s1, h3))
	return jac{x, y, feMul(feMul(p.z, q.z), h)}
}

var baseG = Point{
	X: fe(limbs(unhex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"))),
	Y: fe(limbs(unhex("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"))),
}

var orderN = limbs(unhex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"))

// gTab[i][j] = (j+1) * 16^i * G
var gTab [64][15]jac

func init() {
	b := baseG.jac()
	for i := range gTab {
		gTab[i][0] = b
		for j := 1; j < 15; j++ {
			gTab[i][j] = jadd(gTab[i][j-1], b)
		}
		b = jadd(gTab[i][14], b)
	}
}

// MulG returns k*G for a 32-byte big-endian scalar.
func MulG(k []byte) Point {
	s := limbs(k)
	acc := jac{fe{1}, fe{1}, fe{}}
	for i := 0; i < 64; i++ {
		d := s[i/16] >> (4 * (i % 16)) & 15
		if d != 0 {
			acc = jadd(acc, gTab[i][d-1])
		}
	}
	return acc.affine()
}

// AddPoints returns a+b.
func AddPoints(a, b Point) Point { return jadd(a.jac(), b.jac()).affine() }

// Compress gives the 33-byte SEC encoding.
func (p Point) Compress() []byte {
	x := unlimbs([4]uint64(p.X))
	return append([]byte{2 + byte(p.Y[0]&1)}, x[:]...)
}

// XY gives the fixed-width coordinates.
func (p Point) XY() []byte {
	x := unlimbs([4]uint64(p.X))
	y := unlimbs([4]uint64(p.Y))
	return append(x[:], y[:]...)
}

// Decompress parses a 33-byte SEC point.
func Decompress(b []byte) (Point, bool) {
	if len(b) != 33 || (b[0] != 2 && b[0] != 3) {
		return Point{}, false
	}
	l := limbs(b[1:])
	if geq(&l, (*[4]uint64)(&feP)) {
		return Point{}, false
	}
	x := fe(l)
	y, ok := feSqrt(feAdd(feMul(feSq(x), x), fe{7}))
	if !ok {
		return Point{}, false
	}
	if byte(y[0]&1) != b[0]&1 {
		y = feNeg(y)
	}
	return Point{X: x, Y: y}, true
}

// ScalarOK reports whether 0 < k < n.
func ScalarOK(k []byte) bool {
	l := limbs(k)
	return l[0]|l[1]|l[2]|l[3] != 0 && !geq(&l, &orderN)
}

// AddScalars returns a+b mod n.
func AddScalars(a, b []byte) []byte {
	x, y := limbs(a), limbs(b)
	if geq(&x, &orderN) {
		x = sub4(&x, &orderN)
	}
	if geq(&y, &orderN) {
		y = sub4(&y, &orderN)
	}
	var r [4]uint64
	var c uint64
	for i := 0; i < 4; i++ {
		r[i], c = bits.Add64(x[i], y[i], c)
	}
	if c != 0 || geq(&r, &orderN) {
		r = sub4(&r, &orderN)
	}
	o := unlimbs(r)
	return o[:]
}
