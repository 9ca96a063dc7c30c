package simrt

import (
	"hash/maphash"
	"math/rand"
	rand2 "math/rand/v2"
)

// The random numbers the runtime gives to math/rand and hash/maphash come
// from the run's seed instead (the hooks are put in by the instrumenter).

var rndSeed, rndCount uint64

// SeedRandom starts the sequence for a run.
func SeedRandom(seed uint64) {
	rndSeed, rndCount = Mix(seed^0x72616e64), 0
	simCPU = []int{1, 2, 2, 3, 4, 8, 8, 16, 64}[Mix(seed^0x637075)%9]
	simProcs = simCPU
}

// The machine of a run has a number of processors of its own, so that code
// which splits its work by that number does so in one run and not in another.
var simCPU, simProcs = 4, 4

// NumCPU replaces runtime.NumCPU.
func NumCPU() int { return simCPU }

// GOMAXPROCS replaces runtime.GOMAXPROCS.
func GOMAXPROCS(n int) int {
	old := simProcs
	if n > 0 {
		simProcs = n
	}
	return old
}

// NumGoroutine replaces runtime.NumGoroutine.
func NumGoroutine() int {
	n := 1
	if active {
		n = 0
		for _, t := range S.tasks {
			if t.st != stDone {
				n++
			}
		}
	}
	return n
}

//go:norace
func stdRandom() uint64 {
	rndCount++
	return Mix2(rndSeed, rndCount)
}

func init() {
	rand.SimRand = stdRandom
	rand2.SimRand = stdRandom
	maphash.SimRand = stdRandom
}
