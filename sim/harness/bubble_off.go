//go:build !race

package harness

import (
	"testing"
	"testing/synctest"
)

func bubble(t *testing.T, f func()) { synctest.Test(t, func(*testing.T) { f() }) }
