//go:build race

package sched

import "runtime"

// RaceBuild is true if the race detector is part of the build.
const RaceBuild = true

// The scheduler must not order the accesses of the goroutines it schedules in
// the eyes of the race detector.
func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }
