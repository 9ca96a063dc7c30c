From 8c647bfa49358efb11402823859c1aca926fd2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 01/16] fix: bip39.NewEntropy reports a failing randomness
 source

The error of rand.Read was ignored, so a source that failed or ended early
yielded entropy (and from it a mnemonic) that was partly or entirely zero.
---
 bip39/bip39.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bip39/bip39.go b/bip39/bip39.go
index df29b82..3412f57 100644
--- a/bip39/bip39.go
+++ b/bip39/bip39.go
@@ -104,7 +104,9 @@ func NewEntropy(bitSize int) ([]byte, error) {
 	}
 
 	entropy := make([]byte, bitSize/8)
-	_, _ = rand.Read(entropy) // err is always nil
+	if _, err := rand.Read(entropy); err != nil {
+		return nil, err
+	}
 
 	return entropy, nil
 }
-- 
2.43.0


From 58f6ee639596be21a323a202446c94dcd3456573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 02/16] fix: bip32.Deserialize no longer writes behind the
 caller's slice

For input shorter than 82 bytes the padding was appended in place, which
overwrote whatever the caller keeps in the slice's spare capacity.
---
 bip32/bip32.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index 4e3c220..0cdf373 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -293,8 +293,10 @@ func (key *Key) IsValid() bool {
 func Deserialize(data []byte) (Key, error) {
 	if len(data) != 82 {
 		if len(data) < 82 {
-			exData := make([]byte, 82-len(data))
-			data = append(data, exData...)
+			// pad a copy, data's spare capacity belongs to the caller
+			exData := make([]byte, 82)
+			copy(exData, data)
+			data = exData
 		}
 		return Key(data[:78]), ErrSerializedKeyWrongSize
 	}
-- 
2.43.0


From 2a91884dffcffde72f430792ed565e5f15c0886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 03/16] fix: AddChecksumDblSha256ToBytes returns memory of its
 own

The checksum was appended in place, so it overwrote the spare capacity of the
caller's slice and the result shared the argument's memory.
---
 bip32/utils.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bip32/utils.go b/bip32/utils.go
index 9881523..3313075 100644
--- a/bip32/utils.go
+++ b/bip32/utils.go
@@ -48,7 +48,10 @@ func AddChecksumDblSha256ToBytes(data []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return append(data, checksum...), nil
+	// append to a copy, data's spare capacity belongs to the caller
+	out := make([]byte, 0, len(data)+len(checksum))
+	out = append(out, data...)
+	return append(out, checksum...), nil
 }
 
 func ValidatePrivateKey(key PvtKeyBytes) error {
-- 
2.43.0


From 74484f1ac40ac8800f1142c7827473b2b56ee07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 04/16] fix: KeyPath.AddrHex hashes fixed-width coordinates

For about one key in 128 a coordinate begins with a zero byte, which was
dropped, and the resulting address belonged to no key.
---
 util/key_path.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/key_path.go b/util/key_path.go
index 3795f01..1ddc316 100644
--- a/util/key_path.go
+++ b/util/key_path.go
@@ -19,7 +19,10 @@ func (b KeyPath) AddrHex() string {
 		return ""
 	}
 	x, y := bip32.ExpandPublicKey(pbs)
-	addrBs := append(x.Bytes(), y.Bytes()...)
+	// coordinates have a fixed width, x.Bytes() would drop leading zero bytes
+	addrBs := make([]byte, 64)
+	x.FillBytes(addrBs[:32])
+	y.FillBytes(addrBs[32:])
 	kckHash := sha3.NewLegacyKeccak256()
 	kckHash.Write(addrBs)
 	return hex.EncodeToString(kckHash.Sum(nil)[12:])
-- 
2.43.0


From 919ae81b1075e63a654bb35c9e6a617d867c4a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 05/16] fix: Generator.DeriveBIP32Result reports failing
 derivations

The error of NewChildKey was ignored, so empty keys were listed, for example
for a root key with unregistered version bytes.
---
 util/util.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 4e31e0f..838c200 100644
--- a/util/util.go
+++ b/util/util.go
@@ -116,7 +116,10 @@ func (g *Generator) DeriveBIP32Result(p bip32.Path) ([]KeyPath, error) {
 			if val >= bip32.FirstHardenedChild {
 				derivedPath += "'"
 			}
-			currentKey, _ = currentKey.NewChildKey(val)
+			currentKey, err = currentKey.NewChildKey(val)
+			if err != nil {
+				return nil, err
+			}
 			keyPaths = append(keyPaths, KeyPath{
 				Path: Path(derivedPath).Formatted(),
 				Key:  currentKey,
-- 
2.43.0


From 532d6c924941e0325e980f8fcb13305a11c44a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 06/16] fix: KeyPathRange.GenerateRange reports invalid ranges
 and failing derivations

A range whose end lies before its start was accepted because the unsigned
difference wraps around, and the error of NewChildKey was ignored, so empty
keys were listed.
---
 util/key_path.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/util/key_path.go b/util/key_path.go
index 1ddc316..04d1b77 100644
--- a/util/key_path.go
+++ b/util/key_path.go
@@ -80,7 +80,7 @@ func (k *KeyPathRange) GenerateRange() error {
 	startIndex := k.StartIndex
 	endIndex := k.EndIndex
 
-	if endIndex-startIndex < 1 {
+	if endIndex <= startIndex {
 		return ErrInvalidRangeProvided
 	}
 	if !k.Key.IsValid() {
@@ -98,7 +98,11 @@ func (k *KeyPathRange) GenerateRange() error {
 		if i >= bip32.FirstHardenedChild {
 			derivedPath += "'"
 		}
-		currentKey, _ = currentKey.NewChildKey(i)
+		var err error
+		currentKey, err = currentKey.NewChildKey(i)
+		if err != nil {
+			return err
+		}
 		keyPaths = append(keyPaths, KeyPath{
 			Path: Path(derivedPath).Formatted(),
 			Key:  currentKey,
-- 
2.43.0


From ef4b174ea70281bf42055ccf0eb654770717d0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 07/16] fix: path components of 2^32 and more are refused

They were truncated to 32 bits, so m/4294967296 silently meant m/0.
---
 bip32/path.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bip32/path.go b/bip32/path.go
index 691e40a..69a58b9 100644
--- a/bip32/path.go
+++ b/bip32/path.go
@@ -55,7 +55,7 @@ func (p Path) ValuesAtDepth() ([]uint32, error) {
 		isHardened := strings.Contains(s, "'")
 		if isHardened {
 			fmtStr := strings.ReplaceAll(s, "'", "")
-			val, err := strconv.Atoi(fmtStr)
+			val, err := strconv.ParseUint(fmtStr, 10, 32)
 			if err != nil {
 				return pathArr, err
 			}
@@ -64,7 +64,7 @@ func (p Path) ValuesAtDepth() ([]uint32, error) {
 			}
 			pathArr = append(pathArr, uint32(val)+FirstHardenedChild)
 		} else {
-			val, err := strconv.Atoi(s)
+			val, err := strconv.ParseUint(s, 10, 32)
 			if err != nil {
 				return pathArr, err
 			}
-- 
2.43.0


From 0e8237a897b12910f3adf087e9ecc858ebf54c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 08/16] fix: path depth queries on very long paths and at depth
 0

The number of components was truncated to a byte, so long paths reported
existing depths as missing, and replacing the value at depth 0 overwrote the
leading m, which gave a malformed path without an error.
---
 bip32/path.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bip32/path.go b/bip32/path.go
index 69a58b9..b9c2d17 100644
--- a/bip32/path.go
+++ b/bip32/path.go
@@ -83,7 +83,7 @@ func (p Path) ValueAtDepth(b byte) (uint32, error) {
 	if err != nil {
 		return 0, err
 	}
-	if !(b < byte(len(vals))) {
+	if int(b) >= len(vals) {
 		return 0, ErrUnSupportedOrInvalidPath
 	}
 	return vals[b], nil
@@ -94,7 +94,8 @@ func (p Path) ReplaceValueAtDepth(b byte, val uint32) (Path, error) {
 	if err != nil {
 		return newPath, err
 	}
-	if !(b < byte(len(vals))) {
+	// there's no value to replace at depth 0
+	if b == 0 || int(b) >= len(vals) {
 		return newPath, ErrUnSupportedOrInvalidPath
 	}
 	valsArr := strings.Split(newPath.String(), "/")
-- 
2.43.0


From d6b88cbfa9c6b4c5455b438b777829ecc25c3886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 09/16] fix: a child below depth 255 is an error

The depth byte wrapped around to zero, so the child claimed to be a master key
and was accepted as the root of a derivation.
---
 bip32/bip32.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index 0cdf373..1f16f12 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -72,6 +72,10 @@ var (
 	ErrInvalidPublicKey = errors.New("invalid public key")
 
 	ErrEmptyKey = errors.New("key is empty")
+
+	// ErrMaxDepthReached is returned when trying to create a child of a key
+	// which already has the maximum depth
+	ErrMaxDepthReached = errors.New("can't create a child below the maximum depth")
 )
 
 // NewMasterKey creates a new master extended key from a seed
@@ -111,6 +115,10 @@ func (key *Key) NewChildKey(childIdx uint32) (Key, error) {
 	if !key.IsPrivate() && childIdx >= FirstHardenedChild {
 		return childKey, ErrHardenedChildPublicKey
 	}
+	// The depth is a single byte, a deeper child can't be represented
+	if key[DepthStartIndex] == 255 {
+		return childKey, ErrMaxDepthReached
+	}
 	intermediary, err := key.getIntermediary(childIdx)
 	if err != nil {
 		return childKey, err
-- 
2.43.0


From ae6fc1ce78cea66cd9f6b1a8d7ee43f24eae2685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 10/16] fix: the version registry has the same order at every
 start

It was filled in map iteration order, so every start of the process listed and
looked up the registered entries in another order.
---
 bip32/reg_ver_bytes.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bip32/reg_ver_bytes.go b/bip32/reg_ver_bytes.go
index 036d09f..3db25cd 100644
--- a/bip32/reg_ver_bytes.go
+++ b/bip32/reg_ver_bytes.go
@@ -3,6 +3,7 @@ package bip32
 import (
 	"encoding/binary"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 )
@@ -424,7 +425,15 @@ var PathToHDBytesSlice = map[string][]VersionBytes{
 }
 
 func init() {
-	for _, hdBytesArr := range PathToHDBytesSlice {
+	// The order of the registered slices must not depend on the iteration
+	// order of a map, which differs from start to start.
+	paths := make([]string, 0, len(PathToHDBytesSlice))
+	for path := range PathToHDBytesSlice {
+		paths = append(paths, path)
+	}
+	sort.Strings(paths)
+	for _, path := range paths {
+		hdBytesArr := PathToHDBytesSlice[path]
 		HDVersionBytesSlice = append(HDVersionBytesSlice, hdBytesArr...)
 		for _, hdBytes := range hdBytesArr {
 			val, _ := PvtFlagToHDBytesSlice[hdBytes.PvtKeyFlag]
-- 
2.43.0


From d8fa2a9756d0499d2ac32430842b4059005a363d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 11/16] fix: MnemonicToByteArray pads to the entropy's size

The size was computed by splitting at single spaces while the words are found
with strings.Fields, so other whitespace between words changed the result.
---
 bip39/bip39.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/bip39/bip39.go b/bip39/bip39.go
index 3412f57..f3e232b 100644
--- a/bip39/bip39.go
+++ b/bip39/bip39.go
@@ -217,13 +217,6 @@ func NewMnemonic(entropy []byte) (string, error) {
 // suitable for creating another mnemonic.
 // An error is returned if the mnemonic is invalid.
 func MnemonicToByteArray(mnemonic string, raw ...bool) ([]byte, error) {
-	var (
-		mnemonicSlice   = strings.Split(mnemonic, " ")
-		entropyBitSize  = len(mnemonicSlice) * 11
-		checksumBitSize = entropyBitSize % 32
-		fullByteSize    = (entropyBitSize-checksumBitSize)/8 + 1
-	)
-
 	// Turn into raw entropy.
 	rawEntropyBytes, err := EntropyFromMnemonic(mnemonic)
 	if err != nil {
@@ -235,8 +228,8 @@ func MnemonicToByteArray(mnemonic string, raw ...bool) ([]byte, error) {
 		return rawEntropyBytes, nil
 	}
 
-	// Otherwise add the checksum before returning
-	return padByteSlice(addChecksum(rawEntropyBytes), fullByteSize), nil
+	// Otherwise add the checksum (at most one byte) before returning
+	return padByteSlice(addChecksum(rawEntropyBytes), len(rawEntropyBytes)+1), nil
 }
 
 // NewSeedWithErrorChecking creates a hashed seed output given the mnemonic string and a password.
-- 
2.43.0


From e89c12784d0fc347e5650c72df96be60d0a398c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 12/16] fix: whitespace in a valid mnemonic does not change the
 seed

Extra whitespace between words passed the validation but went into the seed, so
the same words silently restored a different wallet.
---
 bip39/bip39.go | 2 +-
 util/util.go   | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/bip39/bip39.go b/bip39/bip39.go
index f3e232b..541f092 100644
--- a/bip39/bip39.go
+++ b/bip39/bip39.go
@@ -240,7 +240,7 @@ func NewSeedWithErrorChecking(mnemonic string, password string) ([]byte, error)
 		return nil, err
 	}
 
-	return NewSeed(mnemonic, password), nil
+	return NewSeed(strings.Join(strings.Fields(mnemonic), " "), password), nil
 }
 
 // NewSeed creates a hashed seed output given a provided string and password.
diff --git a/util/util.go b/util/util.go
index 838c200..591ef55 100644
--- a/util/util.go
+++ b/util/util.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"github.com/mearaj/bips/bip32"
 	"github.com/mearaj/bips/bip39"
+	"strings"
 )
 
 const (
@@ -49,6 +50,8 @@ func DeriveSeedFromMnemonic(mnemonic string, mnemonicPassphrase string) (string,
 	if err != nil {
 		return "", err
 	}
+	// the words are what counts, not the whitespace between them
+	mnemonic = strings.Join(strings.Fields(mnemonic), " ")
 	return hex.EncodeToString(bip39.NewSeed(mnemonic, mnemonicPassphrase)), nil
 }
 
-- 
2.43.0


From 062ba9bd16f2b1519170107543a0275d996ca67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 13/16] fix: the active word list is not shared with callers

SetWordList kept the caller's slice and GetWordList returned the internal one,
so writing to either changed encoding, but not decoding, from then on.
---
 bip39/bip39.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bip39/bip39.go b/bip39/bip39.go
index 541f092..b64f5dc 100644
--- a/bip39/bip39.go
+++ b/bip39/bip39.go
@@ -75,7 +75,8 @@ func init() {
 // SetWordList sets the list of words to use for mnemonics. Currently the list
 // that is set is used package-wide.
 func SetWordList(list []string) {
-	wordList = list
+	// The caller keeps its slice, later changes to it must have no effect
+	wordList = append([]string(nil), list...)
 	wordMap = map[string]int{}
 
 	for i, v := range wordList {
@@ -85,7 +86,7 @@ func SetWordList(list []string) {
 
 // GetWordList gets the list of words to use for mnemonics.
 func GetWordList() []string {
-	return wordList
+	return append([]string(nil), wordList...)
 }
 
 // GetWordIndex gets word index in wordMap.
-- 
2.43.0


From da556bc11925251127a6bbbac549a294dec85174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:53 +0000
Subject: [PATCH 14/16] fix: parse the hexadecimal path components of
 slip-0044.md

The generator parsed them as decimal numbers, so every row of the document
was dropped and the generated file was always empty.
---
 bip44/script.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bip44/script.go b/bip44/script.go
index 4ef974b..c88aead 100644
--- a/bip44/script.go
+++ b/bip44/script.go
@@ -41,7 +41,7 @@ func generateFileFromSlip44MD() {
 			coinType, err := strconv.ParseUint(fields[0], 10, 32)
 			if err == nil {
 				regCoin.Type = uint32(coinType)
-				pathComp, err := strconv.ParseUint(fields[1], 10, 32)
+				pathComp, err := strconv.ParseUint(fields[1], 0, 32)
 				regCoin.PathComponent = uint32(pathComp)
 				if err == nil {
 					if len(fields) == 3 {
-- 
2.43.0


From efa5530df83966fa6411b87d6716c48e82929601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:53 +0000
Subject: [PATCH 15/16] fix: report when the generated coin table cannot be
 written

The error of os.WriteFile was dropped, so a full or broken disk left a missing
or cut-off file behind a successful run.
---
 bip44/script.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bip44/script.go b/bip44/script.go
index c88aead..4761bc7 100644
--- a/bip44/script.go
+++ b/bip44/script.go
@@ -62,5 +62,7 @@ func generateFileFromSlip44MD() {
 		contents += regCoin.StringForMD() + ",\n"
 	}
 	// file, _ := json.MarshalIndent(bips.RegCoins, "", " ")
-	_ = os.WriteFile("testing.go", []byte(contents), os.ModePerm)
+	if err := os.WriteFile("testing.go", []byte(contents), os.ModePerm); err != nil {
+		log.Fatal(err)
+	}
 }
-- 
2.43.0


From 4a2955b732c531bb8f0b417764cf4b34c6477698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:57 +0000
Subject: [PATCH 16/16] fix: bip39: SetWordList may overlap other calls

Calls that looked words up while another goroutine set the word list could
end the process (concurrent map read and map write) or see half of a list.
---
 bip39/active_words.go | 14 ++++++++++++++
 bip39/bip39.go        |  6 ++++++
 2 files changed, 20 insertions(+)
 create mode 100644 bip39/active_words.go

diff --git a/bip39/active_words.go b/bip39/active_words.go
new file mode 100644
index 0000000..5a640e8
--- /dev/null
+++ b/bip39/active_words.go
@@ -0,0 +1,14 @@
+package bip39
+
+import "sync"
+
+// wordsLock guards wordList and wordMap, which SetWordList replaces together.
+var wordsLock sync.RWMutex
+
+// activeWords returns the active list of words and its reverse lookup map.
+// Neither of them changes once it is set.
+func activeWords() ([]string, map[string]int) {
+	wordsLock.RLock()
+	defer wordsLock.RUnlock()
+	return wordList, wordMap
+}
diff --git a/bip39/bip39.go b/bip39/bip39.go
index b64f5dc..f1e6c05 100644
--- a/bip39/bip39.go
+++ b/bip39/bip39.go
@@ -75,6 +75,8 @@ func init() {
 // SetWordList sets the list of words to use for mnemonics. Currently the list
 // that is set is used package-wide.
 func SetWordList(list []string) {
+	wordsLock.Lock()
+	defer wordsLock.Unlock()
 	// The caller keeps its slice, later changes to it must have no effect
 	wordList = append([]string(nil), list...)
 	wordMap = map[string]int{}
@@ -86,11 +88,13 @@ func SetWordList(list []string) {
 
 // GetWordList gets the list of words to use for mnemonics.
 func GetWordList() []string {
+	wordList, _ := activeWords()
 	return append([]string(nil), wordList...)
 }
 
 // GetWordIndex gets word index in wordMap.
 func GetWordIndex(word string) (int, bool) {
+	_, wordMap := activeWords()
 	idx, ok := wordMap[word]
 	return idx, ok
 }
@@ -127,6 +131,7 @@ func EntropyFromMnemonic(mnemonic string) ([]byte, error) {
 		b         = big.NewInt(0)
 	)
 
+	_, wordMap := activeWords()
 	for _, v := range mnemonicSlice {
 		index, found := wordMap[v]
 		if !found {
@@ -199,6 +204,7 @@ func NewMnemonic(entropy []byte) (string, error) {
 	// Throw away big.Int for AND masking.
 	word := big.NewInt(0)
 
+	wordList, _ := activeWords()
 	for i := sentenceLength - 1; i >= 0; i-- {
 		// Get 11 right most bits and bitshift 11 to the right for next time.
 		word.And(entropyInt, last11BitsMask)
-- 
2.43.0

