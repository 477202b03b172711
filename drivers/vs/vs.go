// Package vs is the yield-point scheduler used by instrumented builds: the
// instrumenter (/verif/tools/instr) inserts a call to Y before every statement
// of the selected packages, and Y decides (from a seed) when the running
// goroutine gives way to the others. With GOMAXPROCS(1) this explores
// statement-level interleavings of the real code.
package vs

import (
	"runtime"
	"sync/atomic"
)

var (
	on     atomic.Bool
	state  atomic.Uint64
	count  atomic.Int64
	mode   int
	den    uint64
	burst  uint64
	points [4]int64
	width  int
)

// Count reports the yield points passed since Begin.
func Count() int64 { return count.Load() }

func mix(z uint64) uint64 {
	z += 0x9E3779B97F4A7C15
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Begin starts one explored run. est is the expected number of yield points.
func Begin(seed uint64, est int64) {
	s := mix(seed)
	state.Store(s)
	count.Store(0)
	mode = int(s % 4)
	switch mode {
	case 0, 1: // random walk: yield with probability 1/den, for a short burst
		den = []uint64{1, 2, 3, 5, 9, 17}[(s>>8)%6]
		burst = []uint64{1, 2, 4, 16}[(s>>16)%4]
	default: // victims: 1..4 points at which the running goroutine is held back
		if est < 8 {
			est = 8
		}
		width = []int{30, 100, 400}[(s>>40)%3]
		n := 1 + int((s>>20)%4)
		for i := range points {
			points[i] = -1
			if i < n {
				points[i] = 1 + int64(mix(s+uint64(i))%uint64(est))
			}
		}
	}
	on.Store(true)
}

// End stops yielding.
func End() { on.Store(false) }

// Y is a potential context switch.
func Y() {
	if !on.Load() {
		return
	}
	c := count.Add(1)
	if mode < 2 {
		z := mix(state.Add(0x9E3779B97F4A7C15))
		if z%den == 0 {
			n := 1 + (z>>32)%burst
			for i := uint64(0); i < n; i++ {
				runtime.Gosched()
			}
		}
		return
	}
	for _, p := range points {
		if p == c {
			for i := 0; i < width; i++ {
				runtime.Gosched()
			}
			return
		}
	}
}
