//go:build !race

package sched

// Races is the number of data races reported so far.
func Races() int { return 0 }

// RaceDetector tells whether the race detector is on.
const RaceDetector = false
