package simrt

import (
	"bytes"
	"runtime"
	"strconv"
	"unsafe"
)

func getg() uintptr

var offGoid, offParent uintptr

//go:norace
func word(g, off uintptr) uint64 { return *(*uint64)(unsafe.Pointer(g + off)) }

// curGoid returns the id of the running goroutine.
//
//go:norace
func curGoid() uint64 { return word(getg(), offGoid) }

// parentGoid returns the id of the goroutine that started this one.
//
//go:norace
func parentGoid() uint64 { return word(getg(), offParent) }

func slowIDs() (id, parent uint64) {
	buf := make([]byte, 1<<16)
	buf = buf[:runtime.Stack(buf, false)]
	rest := bytes.TrimPrefix(buf, []byte("goroutine "))
	if i := bytes.IndexByte(rest, ' '); i > 0 {
		id, _ = strconv.ParseUint(string(rest[:i]), 10, 64)
	}
	if i := bytes.LastIndex(buf, []byte(" in goroutine ")); i > 0 {
		rest = buf[i+len(" in goroutine "):]
		if j := bytes.IndexByte(rest, '\n'); j > 0 {
			rest = rest[:j]
		}
		parent, _ = strconv.ParseUint(string(rest), 10, 64)
	}
	return
}

// The offsets of goid and parentGoid inside the runtime's g are found by
// looking for the values the runtime prints; several goroutines have to agree.
func init() {
	const limit = 440
	candID := map[uintptr]bool{}
	candPar := map[uintptr]bool{}
	for o := uintptr(0); o < limit; o += 8 {
		candID[o], candPar[o] = true, true
	}
	probe := func() {
		id, par := slowIDs()
		g := getg()
		for o := range candID {
			if word(g, o) != id {
				delete(candID, o)
			}
		}
		for o := range candPar {
			if par != 0 && word(g, o) != par {
				delete(candPar, o)
			}
		}
	}
	done := make(chan bool)
	for i := 0; i < 40; i++ {
		nest := i % 3
		go func() {
			probe()
			if nest > 0 {
				d := make(chan bool)
				go func() {
					probe()
					d <- true
				}()
				<-d
			}
			done <- true
		}()
		<-done
	}
	min := func(m map[uintptr]bool) uintptr {
		best := uintptr(limit)
		for o := range m {
			if o < best {
				best = o
			}
		}
		return best
	}
	if len(candID) == 0 || len(candPar) == 0 {
		panic("simrt: goroutine id offsets not found")
	}
	offGoid, offParent = min(candID), min(candPar)
	if offGoid == offParent {
		panic("simrt: goroutine id offsets ambiguous")
	}
}
