// Command libsim simulates callers of the packages bip32, bip39, bip44 and
// util under a controlled scheduler, randomness source, disk and network.
package main

import "github.com/mearaj/bips/zzverif/core"

func main() { core.Main(libSim{}) }
