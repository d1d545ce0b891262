//go:build race

package sched

import "runtime"

// Races is the number of data races reported so far.
func Races() int { return runtime.RaceErrors() }

// RaceDetector tells whether the race detector is on.
const RaceDetector = true
