// Command guisim simulates sessions of the desktop tool examples/ui/one on a
// simulated window, clock, clipboard and randomness source.
package main

import "github.com/mearaj/bips/zzverif/core"

func main() { core.Main(guiSim{}) }
