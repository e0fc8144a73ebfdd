package harness

import (
	"fmt"
	"os"
	"strings"

	"verifsim/simrt"
)

// The race detector writes its reports to a file; what a run added to it is
// looked at when the run is over.
var (
	raceLog string
	raceOff int64
)

// RaceLog names the file the reports go to (GORACE log_path).
func RaceLog(path string) { raceLog = fmt.Sprintf("%s.%d", path, os.Getpid()) }

func newRaces() (text string) {
	if !simrt.RaceEnabled || raceLog == "" {
		return
	}
	f, e := os.Open(raceLog)
	if e != nil {
		return
	}
	defer f.Close()
	st, e := f.Stat()
	if e != nil || st.Size() <= raceOff {
		return
	}
	b := make([]byte, st.Size()-raceOff)
	n, _ := f.ReadAt(b, raceOff)
	raceOff += int64(n)
	return string(b[:n])
}

const underTest = "github.com/powerpuffpenguin/sessionid"

// judgeRaces reports races of which both sides are in the code under test, or
// in a library that it called.
func judgeRaces(w *world) {
	for _, rep := range strings.Split(newRaces(), "==================") {
		if !strings.Contains(rep, "WARNING: DATA RACE") {
			continue
		}
		var stacks [][]string
		var cur []string
		access := false
		for _, l := range append(strings.Split(rep, "\n"), "") {
			switch {
			case strings.TrimSpace(l) == "":
				if access {
					stacks = append(stacks, cur)
				}
				cur, access = nil, false
			case strings.Contains(l, " at 0x") && strings.Contains(l, " by "):
				access = true
				cur = []string{strings.TrimSpace(l)}
			case access:
				cur = append(cur, strings.TrimSpace(l))
			}
		}
		if len(stacks) != 2 {
			continue
		}
		ours, any := true, false
		var tops []string
		for _, st := range stacks {
			mine := ""
			for i := 1; i+1 < len(st); i += 2 {
				if strings.HasPrefix(st[i], "verifsim/") {
					break
				}
				if strings.HasPrefix(st[i], underTest) {
					mine = st[i]
					break
				}
			}
			if mine == "" && deferredAtomic(st) {
				mine = "a defer statement"
			} else if mine == "" {
				ours = false
			} else {
				any = true
			}
			top := ""
			if len(st) > 1 {
				top = st[1]
			}
			kind := st[0]
			if i := strings.Index(kind, " at 0x"); i > 0 {
				kind = kind[:i]
			}
			tops = append(tops, fmt.Sprintf("%s in %s, called by %s", kind, top, mine))
		}
		if ours && any {
			w.violate("data-race", "unsynchronised access to shared memory: %s", strings.Join(tops, " / "))
		} else {
			w.k.Probe("race.elsewhere")
		}
	}
}

// deferredAtomic recognises the stack of "defer atomic.Store...": the function
// with the statement is no longer on it.  The harness does no such thing.
func deferredAtomic(st []string) bool {
	if len(st) < 2 || !strings.HasPrefix(st[1], "sync/atomic.") && !strings.HasPrefix(st[1], "internal/runtime/atomic.") {
		return false
	}
	for i := 1; i+1 < len(st); i += 2 {
		if f := st[i]; !strings.HasPrefix(f, "sync/atomic.") && !strings.HasPrefix(f, "runtime.") && !strings.HasPrefix(f, "internal/runtime/") {
			return false
		}
	}
	return true
}
