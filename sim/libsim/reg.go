package main

import (
	"fmt"
	"hash/fnv"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip44"
	"github.com/mearaj/bips/zzverif/core"
	"github.com/mearaj/bips/zzverif/ref"
)

// regText renders both registries completely, every lookup in key order.
func regText() string {
	var sb strings.Builder
	u32 := func(name string, m map[uint32][]bip32.VersionBytes) {
		var ks []uint32
		for k := range m {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		for _, k := range ks {
			fmt.Fprintf(&sb, "%s[%#x] = %+v\n", name, k, m[k])
		}
	}
	for i, e := range bip32.HDVersionBytesSlice {
		fmt.Fprintf(&sb, "HDVersionBytesSlice[%d] = %+v\n", i, e)
	}
	u32("PvtFlagToHDBytesSlice", bip32.PvtFlagToHDBytesSlice)
	u32("PubFlagToHDBytesSlice", bip32.PubFlagToHDBytesSlice)
	u32("PurposeToHDBytesSlice", bip32.PurposeToHDBytesSlice)
	u32("PurposeFullToHDBytesSlice", bip32.PurposeFullToHDBytesSlice)
	u32("CoinTypeToHDBytesSlice", bip32.CoinTypeToHDBytesSlice)
	var ps []string
	for p := range bip32.PathToHDBytesSlice {
		ps = append(ps, string(p))
	}
	sort.Strings(ps)
	for _, p := range ps {
		fmt.Fprintf(&sb, "PathToHDBytesSlice[%s] = %+v\n", p, bip32.PathToHDBytesSlice[p])
	}
	fmt.Fprintf(&sb, "DefaultMainnetVersion = %+v\nDefaultTestnetVersion = %+v\n", bip32.DefaultMainnetVersion, bip32.DefaultTestnetVersion)
	for i, c := range bip44.RegCoins {
		fmt.Fprintf(&sb, "RegCoins[%d] = %+v\n", i, c)
	}
	coins := func(name string, m map[uint32]bip44.Coin) {
		var ks []uint32
		for k := range m {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		for _, k := range ks {
			fmt.Fprintf(&sb, "%s[%d] = %+v\n", name, k, m[k])
		}
	}
	coins("RegBip44CoinsTypeToValMap", bip44.RegBip44CoinsTypeToValMap)
	coins("RegBip44CoinsPathCompToValMap", bip44.RegBip44CoinsPathCompToValMap)
	var ns []string
	for n := range bip44.RegBip44CoinsNameToValMap {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		fmt.Fprintf(&sb, "RegBip44CoinsNameToValMap[%s] = %+v\n", n, bip44.RegBip44CoinsNameToValMap[n])
	}
	return sb.String()
}

// regBase is the rendering after the process's first simulated start.
var regBase, regBaseline string

func digest(s string) string {
	h := fnv.New64a()
	h.Write([]byte(s))
	return fmt.Sprintf("registries %016x", h.Sum64())
}

func regDump() string { return digest(regText()) }

// regDiff is the first line in which the registries differ from the baseline.
func regDiff() string {
	a, b := strings.Split(regBase, "\n"), strings.Split(regText(), "\n")
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			x := ""
			if i < len(b) {
				x = b[i]
			}
			return fmt.Sprintf("first start: %s | this start: %s", core.Short(a[i]), core.Short(x))
		}
	}
	return ""
}

// regLook checks that a registered version is reachable through every lookup.
func regLook(op *core.Op) string {
	all := bip32.HDVersionBytesSlice
	if len(all) == 0 {
		return "HDVersionBytesSlice is empty"
	}
	e := all[op.N%len(all)]
	in := func(l []bip32.VersionBytes) bool {
		for i := range l {
			if reflect.DeepEqual(l[i], e) {
				return true
			}
		}
		return false
	}
	pv, err := e.PurposeVal()
	if err != nil {
		return fmt.Sprintf("PurposeVal of %+v fails", e)
	}
	pf, err := e.PurposeValFull()
	if err != nil || pf != pv+1<<31 {
		return fmt.Sprintf("PurposeValFull of %+v is %d", e, pf)
	}
	cv, err := e.CoinVal()
	if err != nil {
		return fmt.Sprintf("CoinVal of %+v fails", e)
	}
	if cf, err := e.CoinValFull(); err != nil || cf != cv+1<<31 {
		return fmt.Sprintf("CoinValFull of %+v is %d", e, cf)
	}
	if v, err := ref.ParsePath(e.Path.String()); err != nil || len(v) != 2 || v[0] != pf || v[1] != cv+1<<31 {
		return fmt.Sprintf("purpose %d and coin type %d of %+v are not those of its path", pv, cv, e)
	}
	switch {
	case !in(bip32.PvtFlagToHDBytesSlice[e.PvtKeyFlag]):
		return fmt.Sprintf("%+v not found by private flag", e)
	case !in(bip32.PubFlagToHDBytesSlice[e.PubKeyFlag]):
		return fmt.Sprintf("%+v not found by public flag", e)
	case !in(bip32.PurposeToHDBytesSlice[pv]):
		return fmt.Sprintf("%+v not found by purpose", e)
	case !in(bip32.PurposeFullToHDBytesSlice[pf]):
		return fmt.Sprintf("%+v not found by hardened purpose", e)
	case !in(bip32.CoinTypeToHDBytesSlice[cv]):
		return fmt.Sprintf("%+v not found by coin type", e)
	case !in(bip32.PathToHDBytesSlice[e.Path.String()]):
		return fmt.Sprintf("%+v not found by path", e)
	case !e.IsRegistered() || !e.IsValid():
		return fmt.Sprintf("%+v is not registered or not valid", e)
	}
	b := e.PvtKeyFlagBytes()
	c := e.PubKeyFlagBytes()
	if hx(b[:])+hx(c[:]) != fmt.Sprintf("%08x%08x", e.PvtKeyFlag, e.PubKeyFlag) {
		return fmt.Sprintf("flag bytes of %+v are %x %x", e, b, c)
	}
	return "ok"
}

// regWhole checks the other direction: nothing else is in the lookups.
func regWhole() string {
	all := bip32.HDVersionBytesSlice
	in := func(e bip32.VersionBytes) bool {
		for i := range all {
			if reflect.DeepEqual(all[i], e) {
				return true
			}
		}
		return false
	}
	for _, m := range []struct {
		name string
		m    map[uint32][]bip32.VersionBytes
		key  func(e bip32.VersionBytes) uint32
	}{
		{"PvtFlagToHDBytesSlice", bip32.PvtFlagToHDBytesSlice, func(e bip32.VersionBytes) uint32 { return e.PvtKeyFlag }},
		{"PubFlagToHDBytesSlice", bip32.PubFlagToHDBytesSlice, func(e bip32.VersionBytes) uint32 { return e.PubKeyFlag }},
		{"PurposeToHDBytesSlice", bip32.PurposeToHDBytesSlice, func(e bip32.VersionBytes) uint32 { v, _ := e.PurposeVal(); return v }},
		{"PurposeFullToHDBytesSlice", bip32.PurposeFullToHDBytesSlice, func(e bip32.VersionBytes) uint32 { v, _ := e.PurposeValFull(); return v }},
		{"CoinTypeToHDBytesSlice", bip32.CoinTypeToHDBytesSlice, func(e bip32.VersionBytes) uint32 { v, _ := e.CoinVal(); return v }},
	} {
		n := 0
		for k, l := range m.m {
			for _, e := range l {
				n++
				if m.key(e) != k {
					return fmt.Sprintf("%s[%#x] lists %+v", m.name, k, e)
				}
				if !in(e) {
					return fmt.Sprintf("%s[%#x] lists %+v, which is not registered", m.name, k, e)
				}
			}
		}
		if n != len(all) {
			return fmt.Sprintf("%s lists %d entries, %d are registered", m.name, n, len(all))
		}
	}
	if n := len(bip44.RegCoins); len(bip44.RegBip44CoinsTypeToValMap) > n || len(bip44.RegBip44CoinsPathCompToValMap) > n || len(bip44.RegBip44CoinsNameToValMap) > n {
		return "more coins in a lookup than are registered"
	}
	return ""
}

// coinLook checks that a registered coin is reachable through every lookup.
func coinLook(op *core.Op) string {
	if len(bip44.RegCoins) == 0 {
		return "RegCoins is empty"
	}
	c := bip44.RegCoins[op.N%len(bip44.RegCoins)]
	if !c.IsValid() {
		return fmt.Sprintf("%+v is not valid", c)
	}
	if g, ok := bip44.RegBip44CoinsTypeToValMap[c.Type]; !ok || g != c {
		return fmt.Sprintf("coin %+v by type: %+v", c, g)
	}
	if g, ok := bip44.RegBip44CoinsPathCompToValMap[c.PathComponent]; !ok || g != c {
		return fmt.Sprintf("coin %+v by path component: %+v", c, g)
	}
	if g, ok := bip44.RegBip44CoinsNameToValMap[c.Name]; !ok || g.Name != c.Name {
		return fmt.Sprintf("coin %+v by name: %+v", c, g)
	}
	for _, s := range []string{c.String(), c.StringForMD()} {
		if !strings.Contains(s, c.Name) || !strings.Contains(s, c.Symbol) || !strings.Contains(s, fmt.Sprint(c.Type)) {
			return fmt.Sprintf("coin %+v renders as %q", c, s)
		}
	}
	return "ok"
}

var (
	plainComp   = regexp.MustCompile(`^[0-9]+'$`)
	plainRegVer = regexp.MustCompile(`^m/[0-9]{1,8}'/[0-9]{1,8}'$`)
)

// verPath checks the purpose and coin type of an entry with any path.
func verPath(op *core.Op) string {
	h := bip32.VersionBytes{Coin: "c", PvtKeyFlag: op.I, PubKeyFlag: op.J, Path: bip32.Path(op.S)}
	p := ref.StripPath(op.S)
	parts := strings.Split(p, "/")
	for i, f := range []struct {
		name      string
		val, full func() (uint32, error)
	}{{"purpose", h.PurposeVal, h.PurposeValFull}, {"coin type", h.CoinVal, h.CoinValFull}} {
		a, e1 := f.val()
		b, e2 := f.full()
		if (e1 == nil) != (e2 == nil) || e1 == nil && b != a+1<<31 {
			return fmt.Sprintf("the %s of %q is %d (%v), hardened %d (%v)", f.name, op.S, a, e1, b, e2)
		}
		good := len(parts) == 3 && plainComp.MatchString(parts[i+1])
		var want uint64
		if good {
			var err error
			want, err = strconv.ParseUint(strings.TrimSuffix(parts[i+1], "'"), 10, 31)
			good = err == nil
		}
		if e1 == nil && !good || e1 == nil && uint64(a) != want || e1 != nil && plainRegVer.MatchString(p) {
			return fmt.Sprintf("the %s of %q is %d (%v)", f.name, op.S, a, e1)
		}
	}
	b, c := h.PvtKeyFlagBytes(), h.PubKeyFlagBytes()
	if hx(b[:])+hx(c[:]) != fmt.Sprintf("%08x%08x", h.PvtKeyFlag, h.PubKeyFlag) {
		return fmt.Sprintf("flag bytes of %+v are %x %x", h, b, c)
	}
	return "ok"
}

// coinOK checks which coins count as valid.
func coinOK(op *core.Op) string {
	c := bip44.Coin{Type: op.I, PathComponent: op.J, Name: op.S, Symbol: op.S2}
	want := strings.TrimSpace(op.S+op.S2) != "" && uint64(op.I)+1<<31 == uint64(op.J)
	if c.IsValid() != want {
		return fmt.Sprintf("coin %+v valid: %v", c, !want)
	}
	return "ok"
}
