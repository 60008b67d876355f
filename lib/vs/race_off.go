//go:build !race

package vs

// RaceBuild reports whether the race detector is compiled in.
const RaceBuild = false

func raceErrors() int { return 0 }

func syncOff() {}
func syncOn()  {}
