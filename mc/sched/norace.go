//go:build !race

package sched

// RaceBuild is true if the race detector is part of the build.
const RaceBuild = false

func raceOff() {}
func raceOn()  {}
