// Package v is the harness vocabulary. The symbolic engine intercepts every exported
// function here; the bodies below are the native replay implementation, which reads the
// recorded values of one path in order.
package v

import (
	"math"
)

// Diverged is panicked when a replay leaves the recorded path (an assumption fails or
// the recorded values run out).
type Diverged struct{ Why string }

// Failed is panicked when an assertion fails in a replay.
type Failed struct{ Msg string }

// Stopped is panicked by Stop.
type Stopped struct{}

// Vals holds the recorded values; Tier the recorded tier; Reached the labels seen.
var (
	Vals    []uint64
	Tier    string
	Reached []string
	pos     int
	pad     uint64
)

// Load installs a recorded path.
func Load(tier string, vals []uint64) {
	Tier, Vals, pos, Reached, pad = tier, append([]uint64(nil), vals...), 0, nil, 0
}

// Pad makes values beyond the recorded ones follow from seed; they are added to Vals.
func Pad(seed uint64) { pad = seed*0x9e3779b97f4a7c15 | 1 }

func next(fill func(r uint64) uint64) uint64 {
	if pos >= len(Vals) {
		if pad == 0 {
			panic(Diverged{"recorded values exhausted"})
		}
		if len(Vals) > 1<<20 {
			panic(Diverged{"too many values"})
		}
		pad ^= pad << 13
		pad ^= pad >> 7
		pad ^= pad << 17
		Vals = append(Vals, fill(pad>>8))
	}
	pos++
	return Vals[pos-1]
}

func below(n int) func(uint64) uint64 {
	return func(r uint64) uint64 {
		if n <= 0 {
			return 0
		}
		return r % uint64(n)
	}
}

func fillByte(r uint64) uint64 {
	if r%8 == 0 {
		return r >> 8 & 255
	}
	const some = "aabbAz01289,,\"\"\n\r[]{}:. -+etnf\\/_\x80\xa1\x61\x01\xc3"
	return uint64(some[r>>8%uint64(len(some))])
}

func fillInt(r uint64) uint64 {
	if r%4 == 0 {
		return r<<3 ^ r>>13
	}
	return uint64(int64(r>>8%7) - 2)
}

func fillFloat(r uint64) uint64 {
	return math.Float64bits([]float64{0, 1, -1, 0.5, 1e9, -2.25, math.MaxFloat64, 3}[r%8])
}

// Bool and friends return an arbitrary value of their type.
func Bool() bool       { return next(below(2)) != 0 }
func Byte() byte       { return byte(next(fillByte)) }
func Uint16() uint16   { return uint16(next(fillInt)) }
func Uint32() uint32   { return uint32(next(fillInt)) }
func Uint64() uint64   { return next(fillInt) }
func Int64() int64     { return int64(next(fillInt)) }
func Float64() float64 { return math.Float64frombits(next(fillFloat)) }

// Int returns an arbitrary integer in [lo,hi].
func Int(lo, hi int) int {
	x := int(int64(next(func(r uint64) uint64 { return uint64(int64(lo)) + r%uint64(hi-lo+1) })))
	if x < lo || x > hi {
		panic(Diverged{"Int out of range"})
	}
	return x
}

// Bytes returns n arbitrary bytes.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(fillByte))
	}
	return b
}

// String returns an arbitrary string of n bytes.
func String(n int) string { return string(Bytes(n)) }

// Pick returns each of 0..n-1 (on separate paths).
func Pick(n int) int { return int(next(below(n))) }

// Case is Pick, split over separate solver jobs.
func Case(n int) int { return int(next(below(n))) }

// Bound selects a bound by tier.
func Bound(quick, thorough int) int {
	if Tier == "thorough" {
		return thorough
	}
	return quick
}

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		panic(Diverged{"assumption"})
	}
}

// Assert states the property.
func Assert(b bool, msg string) {
	if !b {
		panic(Failed{msg})
	}
}

// Reach records a reachability witness.
func Reach(l string) {
	for _, r := range Reached {
		if r == l {
			return
		}
	}
	Reached = append(Reached, l)
}

// Merge selects the state merging mode.
func Merge(mode int) {}

// MapPerm makes map iteration order nondeterministic.
func MapPerm(on bool) {}

// Sched explores goroutine schedules with at most n preemptions.
func Sched(n int) {}

// Steps sets the step budget after which a path counts as a hang.
func Steps(n int) {}

// Symbolic reports whether the engine is running.
func Symbolic() bool { return false }

// Conc forks until x is concrete.
func Conc(x int) int { return x }

// Stop ends the path.
func Stop() { panic(Stopped{}) }

// And, Or and Ite are non-forking connectives.
func And(a, b bool) bool { return a && b }

// Or is non-forking disjunction.
func Or(a, b bool) bool { return a || b }

// Ite is a non-forking conditional.
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Debug prints in verbose engine runs.
func Debug(s string) {}

// Unsupported ends the path as outside the claim.
func Unsupported(why string) { panic(Diverged{"unsupported: " + why}) }
