//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// The hand-over of the processor between tasks must not order their memory
// accesses in the eyes of the race detector; simulated locks do so explicitly.
func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

// RaceQuiet keeps what the harness does between the operations of a task from
// ordering the tasks (the pools of package fmt would); RaceHeard ends that.
func RaceQuiet() { runtime.RaceDisable() }
func RaceHeard() { runtime.RaceEnable() }

// RaceEnabled tells whether this build detects data races.
const RaceEnabled = true

func RaceAcquire(p *uint64)      { runtime.RaceAcquire(unsafe.Pointer(p)) }
func RaceRelease(p *uint64)      { runtime.RaceRelease(unsafe.Pointer(p)) }
func RaceReleaseMerge(p *uint64) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
