package ref

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"strings"
)

// SelfTest checks the reference model against published vectors and internal
// identities; the simulators refuse to run when it fails.
func SelfTest() error {
	if h := sha256.Sum256([]byte(strings.Join(Lists[3].W, "\n") + "\n")); Lists[3].Name != "English" ||
		hex.EncodeToString(h[:]) != "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda" {
		return fmt.Errorf("ref: English word list digest")
	}
	en := Lists[3]
	seed := unhex("000102030405060708090a0b0c0d0e0f")
	m, _ := MasterKey(seed)
	n := m.Neuter()
	for _, c := range [][2]string{
		{m.B58(), "xprv9s21ZrQH143K3QTDL4LXw2F7HEK3wJUD2nW2nRk4stbPy6cq3jPPqjiChkVvvNKmPGJxWUtg6LnF5kejMRNNU3TGtRBeJgk33yuGBxrMPHi"},
		{n.B58(), "xpub661MyMwAqRbcFtXgS5sYJABqqG9YLmC4Q1Rdap9gSE8NqtwybGhePY2gZ29ESFjqJoCu1Rupje8YtGqsefD265TMg7usUDFdp6W1EGMcet8"},
	} {
		if c[0] != c[1] {
			return fmt.Errorf("ref: master key %s", c[0])
		}
	}
	l, err := Derive(m, "m/0'/1'/2'")
	if err != nil || len(l) != 4 {
		return fmt.Errorf("ref: derive: %v", err)
	}
	vals := []uint32{Hardened, 1, 2 + Hardened, 2, 1000000000}
	ch, err := Chain("m", m, vals)
	if err != nil || ch[5].Key.B58() != "xprvA41z7zogVVwxVSgdKUHDy1SKmdb533PjDz7J6N6mV6uS3ze1ai8FHa8kmHScGpWmj4WggLyQjgPie1rFSruoUihUZREPSL39UNdE3BBDu76" {
		return fmt.Errorf("ref: BIP-32 vector 1")
	}
	// Public derivation agrees with private derivation.
	for i := uint32(0); i < 40; i++ {
		a, _ := ch[3].Key.Child(i * 7919)
		p := ch[3].Key.Neuter()
		b, err := p.Child(i * 7919)
		if err != nil || a.Neuter() != b {
			return fmt.Errorf("ref: public derivation")
		}
	}
	ent := bytes.Repeat([]byte{0x7f}, 16)
	mn, _ := en.Mnemonic(ent)
	if mn != "legal winner thank year wave sausage worth useful legal winner thank yellow" {
		return fmt.Errorf("ref: mnemonic %q", mn)
	}
	if hex.EncodeToString(Seed(mn, "TREZOR")) != "2e8905819b8723fe2c1d161860e5ee1830318dbf49a83bd451cfb8440c28bd6fa457fe1296106559a3c80937a1c1069be3a3a5bd381ee6260e8d9739fce1f607" {
		return fmt.Errorf("ref: seed")
	}
	if e, err := en.Entropy(mn); err != nil || !bytes.Equal(e, ent) {
		return fmt.Errorf("ref: entropy")
	}
	var one Key
	one.SetVersion(0x0488ade4)
	one[77] = 1
	if one.EthAddr() != "7e5f4552091a69125d5dfcb7b8c2659029395bdf" || one.B58Addr(0) != "1BgGZ9tcN4rm9KBzDn7KprQz87SZ26SAMH" {
		return fmt.Errorf("ref: addresses %s %s", one.EthAddr(), one.B58Addr(0))
	}
	// Group law: (k+1)G = kG + G on the curve, order annihilates.
	nm1 := unlimbs(orderN)
	nm1[31]--
	p := MulG(nm1[:])
	if q := AddPoints(p, baseG); !q.Inf {
		return fmt.Errorf("ref: group order")
	}
	for i := 0; i < 20; i++ {
		h := sha256.Sum256([]byte{byte(i), 9})
		p := MulG(h[:])
		q := AddPoints(p, baseG)
		if MulG(AddScalars(h[:], append(make([]byte, 31), 1))) != q {
			return fmt.Errorf("ref: addition")
		}
		if d, ok := Decompress(p.Compress()); !ok || d != p {
			return fmt.Errorf("ref: decompression")
		}
	}
	if b, ok := B58Decode("1BgGZ9tcN4rm9KBzDn7KprQz87SZ26SAMH"); !ok || B58Encode(b) != "1BgGZ9tcN4rm9KBzDn7KprQz87SZ26SAMH" {
		return fmt.Errorf("ref: base58")
	}
	return nil
}
