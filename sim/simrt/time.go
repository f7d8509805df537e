package simrt

import "time"

// The simulated clock: time passes only by sleeping and by one microsecond per
// reading, so that code under test that looks at a clock is repeatable.
var epoch = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

// TimeNow replaces time.Now.
//
//go:norace
func TimeNow() time.Time {
	clock += int64(time.Microsecond)
	return epoch.Add(time.Duration(clock))
}

// TimeSince replaces time.Since.
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }

// TimeSleep replaces time.Sleep.
//
//go:norace
func TimeSleep(d time.Duration) {
	if d > 0 {
		clock += int64(d)
	}
	Y(-2)
}

// ClockJump moves the clock without time passing.
//
//go:norace
func ClockJump(ns int64) {
	clock += ns
	jumped += ns
	Jumps++
}

var jumped int64

// Jumps counts jumps of the clock.
var Jumps int64

// ClockPassed is the time that passed since the clock was set.
//
//go:norace
func ClockPassed() int64 { return clock - jumped }

// ClockReset sets the simulated clock.
//
//go:norace
func ClockReset(ns int64) { clock, jumped = ns, ns }

// ClockNow reads it without advancing it.
//
//go:norace
func ClockNow() int64 { return clock }
