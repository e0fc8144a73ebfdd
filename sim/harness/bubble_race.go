//go:build race

package harness

import (
	"testing"
	_ "unsafe"
)

// The testing package would end the test at the first report of the race
// detector, also at those that concern nothing but the simulator.
func bubble(t *testing.T, f func()) { synctestRun(f) }

//go:linkname synctestRun internal/synctest.Run
func synctestRun(f func())
