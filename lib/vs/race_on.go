//go:build race

package vs

import "runtime"

// RaceBuild reports whether the race detector is compiled in.
const RaceBuild = true

func raceErrors() int { return runtime.RaceErrors() }

// between syncOff and syncOn synchronization adds no happens-before edges
func syncOff() { runtime.RaceDisable() }
func syncOn()  { runtime.RaceEnable() }
