//go:build !race

package simrt

func raceOff() {}
func raceOn()  {}

func RaceQuiet() {}
func RaceHeard() {}

// RaceEnabled tells whether this build detects data races.
const RaceEnabled = false

func RaceAcquire(p *uint64)      {}
func RaceRelease(p *uint64)      {}
func RaceReleaseMerge(p *uint64) {}
