// Command driver runs the check of one property: it builds the simulator
// around the code of the tree under test, lets workers search schedules and
// faults, minimises what they find and writes the evidence.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

var (
	verif   = envOr("VERIF_DIR", "/verif")
	repo    = envOr("VERIF_REPO", "/repo")
	scratch string
	bin     string
	race    bool
	level   int
	sites   []string
	started = time.Now()
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// trouble ends the check without an answer: it never counts as a violation.
func trouble(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "check failed to give an answer: %s\n", printable(fmt.Sprintf(format, a...)))
	cleanup()
	os.Exit(2)
}

func cleanup() {
	killAll()
	if scratch != "" && os.Getenv("VERIF_KEEP") == "" {
		os.RemoveAll(scratch)
	}
}

var (
	procMu sync.Mutex
	procs  = map[*exec.Cmd]bool{}
	ending bool
)

func killAll() {
	procMu.Lock()
	defer procMu.Unlock()
	ending = true
	for c := range procs {
		if c.Process != nil {
			syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
		}
	}
}

func note(format string, a ...interface{}) {
	fmt.Printf("[%6.1fs] "+format+"\n", append([]interface{}{time.Since(started).Seconds()}, a...)...)
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: driver check ID quick|thorough | driver replay FILE")
		os.Exit(2)
	}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP)
	go func() { <-sig; cleanup(); os.Exit(2) }()
	var e error
	scratch, e = os.MkdirTemp("", "verif-sim-")
	if e != nil {
		trouble("%v", e)
	}
	code := 2
	switch os.Args[1] {
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		code = check(os.Args[2], tier)
	case "replay":
		code = replay(os.Args[2])
	}
	cleanup()
	os.Exit(code)
}

func goEnv() []string {
	env := []string{}
	for _, v := range os.Environ() {
		switch strings.SplitN(v, "=", 2)[0] {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOSUMDB", "GOEXPERIMENT", "GODEBUG", "GORACE", "GOMAXPROCS":
		default:
			env = append(env, v)
		}
	}
	env = append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOFLAGS=-mod=mod")
	if os.Getenv("GOCACHE") == "" && os.Getenv("HOME") == "" {
		env = append(env, "GOCACHE="+filepath.Join(scratch, "cache"))
	}
	if race {
		// such allocations would not tell the race detector that memory is new
		env = append(env, "GOEXPERIMENT=nosizespecializedmalloc")
	}
	return env
}

func run(dir string, name string, args ...string) (string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = goEnv()
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	e := c.Run()
	return b.String(), e
}

func build() {
	sim := filepath.Join(verif, "sim")
	inst := filepath.Join(scratch, "instr")
	mod, e := os.ReadFile(filepath.Join(sim, "go.mod"))
	if e != nil {
		trouble("%v", e)
	}
	dst := filepath.Join(scratch, "repo")
	text := string(mod) + fmt.Sprintf("\nreplace github.com/powerpuffpenguin/sessionid => %s\n\nreplace github.com/boltdb/bolt => %s\n", dst, filepath.Join(sim, "third_party", "bolt"))
	sm := filepath.Join(scratch, "sim.mod")
	if e := os.WriteFile(sm, []byte(text), 0600); e != nil {
		trouble("%v", e)
	}
	s, e := os.ReadFile(filepath.Join(sim, "go.sum"))
	if e == nil {
		e = os.WriteFile(filepath.Join(scratch, "sim.sum"), s, 0600)
	}
	if e != nil {
		trouble("%v", e)
	}
	if out, e := run(sim, "go", "build", "-modfile="+sm, "-o", inst, "./instr"); e != nil {
		trouble("building instr: %v\n%s", e, out)
	}
	bin = filepath.Join(scratch, "sim.test")
	var first string
	for level = 0; level <= 2; level++ {
		os.RemoveAll(dst)
		if out, e := run(sim, inst, "-src", repo, "-dst", dst, "-level", strconv.Itoa(level), "-race="+strconv.FormatBool(race)); e != nil {
			trouble("instrumenting %s: %v\n%s", repo, e, out)
		}
		args := []string{"test", "-c", "-modfile=" + sm, "-o", bin}
		if race {
			args = append(args, "-race", "-ldflags=-checklinkname=0", "-gcflags=verifsim/...=-race=false", "-gcflags=github.com/boltdb/bolt=-d=checkptr=0")
		}
		out, e := run(sim, "go", append(args, "./harness")...)
		if e == nil {
			break
		}
		if first == "" {
			first = out
		}
		if level == 2 {
			trouble("building the simulator around %s: %v\n%s", repo, e, first)
		}
	}
	b, e := os.ReadFile(filepath.Join(dst, "zzsites.json"))
	if e == nil {
		e = json.Unmarshal(b, &sites)
	}
	if e != nil {
		trouble("%v", e)
	}
	sites = append([]string{"?"}, sites...)
}

// The site numbers of the instrumentation start at 1; the harness's list at 0.
func siteList() []string { return sites }

var jobN int64

type outcome struct {
	rc     int
	stderr string
	hung   bool
	mark   int64
}

// runJob starts a worker and hands its lines to f as they come.
func runJob(j *job, limit time.Duration, f func(*line)) outcome {
	n := atomic.AddInt64(&jobN, 1)
	base := filepath.Join(scratch, fmt.Sprintf("job%d", n))
	j.Out, j.Sites, j.Mark = base+".out", siteList(), base+".mark"
	gorace := "halt_on_error=0 exitcode=0 log_path=" + base + ".race"
	if j.Mode != "run" {
		gorace += " suppress_equal_stacks=0 suppress_equal_addresses=0"
	}
	if race {
		j.RaceLog = base + ".race"
	}
	b, e := json.Marshal(j)
	if e == nil {
		e = os.WriteFile(base+".json", b, 0600)
	}
	if e != nil {
		trouble("%v", e)
	}
	defer func() {
		fs, _ := filepath.Glob(base + ".*")
		for _, f := range fs {
			os.Remove(f)
		}
	}()
	c := exec.Command(bin, "-test.run", "^TestWorker$", "-test.timeout", "0")
	c.Dir = scratch
	c.Env = append(goEnv(), "SIM_JOB="+base+".json", "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GORACE="+gorace, "GOTRACEBACK=all")
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var serr bytes.Buffer
	c.Stdout = io.Discard
	c.Stderr = &limited{b: &serr}
	procMu.Lock()
	if ending {
		procMu.Unlock()
		return outcome{rc: -2}
	}
	if e := c.Start(); e != nil {
		procMu.Unlock()
		trouble("%v", e)
	}
	procs[c] = true
	procMu.Unlock()
	done := make(chan struct{})
	var o outcome
	readMark := func() int64 {
		b, e := os.ReadFile(j.Mark)
		if e != nil {
			return -1
		}
		v, e := strconv.ParseInt(strings.TrimSpace(string(b)), 10, 64)
		if e != nil {
			return -1
		}
		return v
	}
	go func() {
		// a run that does not end in real time
		last, at := int64(-1), time.Now()
		t := time.NewTicker(time.Second)
		defer t.Stop()
		for {
			select {
			case <-done:
				return
			case <-t.C:
			}
			if m := readMark(); m != last {
				last, at = m, time.Now()
			} else if time.Since(at) > limit {
				procMu.Lock()
				o.hung = true
				procMu.Unlock()
				syscall.Kill(c.Process.Pid, syscall.SIGQUIT)
				select {
				case <-done:
				case <-time.After(5 * time.Second):
					syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
				}
				return
			}
		}
	}()
	e = c.Wait()
	close(done)
	procMu.Lock()
	delete(procs, c)
	hung := o.hung
	procMu.Unlock()
	o.hung = hung
	o.mark = readMark()
	o.rc = c.ProcessState.ExitCode()
	o.stderr = serr.String()
	fh, e := os.Open(j.Out)
	if e == nil {
		r := bufio.NewReaderSize(fh, 1<<20)
		for {
			b, e := r.ReadBytes('\n')
			if e != nil {
				break
			}
			var l line
			if e := json.Unmarshal(b, &l); e != nil {
				trouble("worker output: %v", e)
			}
			f(&l)
		}
		fh.Close()
	}
	return o
}

type limited struct {
	mu sync.Mutex
	b  *bytes.Buffer
}

func (l *limited) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

// ---- the search ----

type found struct {
	index  int64
	seed   uint64
	plan   *plan
	res    *result
	worker int
	from   int64 // first index of the worker process
	stride int64
}

type search struct {
	known  []knownRe
	mu     sync.Mutex
	tot    sum
	hashes map[uint64]struct{}
	first  []uint64 // of worker 0's first process
	found  []*found
	bad    string // trouble
	stop   int32
	procs  int64
	sample []raw
	crash  []*found
}

func addMap(a, b map[string]int64) map[string]int64 {
	if a == nil {
		a = map[string]int64{}
	}
	for k, v := range b {
		a[k] += v
	}
	return a
}

func (s *search) worker(id, n int, prop string, seed uint64, until time.Time) {
	i := int64(id)
	for atomic.LoadInt32(&s.stop) == 0 && time.Now().Before(until) {
		from := i
		next := int64(-1)
		j := &job{Mode: "run", Prop: prop, Seed: seed, From: i, Stride: int64(n), Until: until.UnixNano(), MaxViol: 1, Known: s.known}
		atomic.AddInt64(&s.procs, 1)
		o := runJob(j, 90*time.Second, func(l *line) {
			s.mu.Lock()
			defer s.mu.Unlock()
			switch {
			case l.Sum != nil:
				x := l.Sum
				t := &s.tot
				t.Runs += x.Runs
				t.Steps += x.Steps
				t.Switches += x.Switches
				t.Ops += x.Ops
				t.SimTime += x.SimTime
				t.Inconclusive += x.Inconclusive
				for _, h := range x.Hashes {
					s.hashes[h] = struct{}{}
				}
				if id == 0 && from == 0 && len(s.first) < 16 {
					s.first = append(s.first, x.Hashes...)
				}
				t.Faults, t.Probes, t.Kinds = addMap(t.Faults, x.Faults), addMap(t.Probes, x.Probes), addMap(t.Kinds, x.Kinds)
				t.Errors = append(t.Errors, x.Errors...)
				if len(x.Sample) > 4 && len(s.sample) < 3 {
					s.sample = append(s.sample, x.Sample)
				}
				next = x.Next
			case l.Res != nil && len(l.Res.Violations) > 0:
				s.found = append(s.found, &found{index: l.Index, seed: l.Seed, plan: l.Plan, res: l.Res, worker: id, from: from, stride: int64(n)})
				atomic.StoreInt32(&s.stop, 1)
			}
		})
		if o.rc == -2 {
			return
		}
		switch {
		case o.rc == 0 || o.rc == 77:
			if next < 0 {
				s.trouble("worker reported nothing: %s", tail(o.stderr))
				return
			}
			i = next
			if o.rc == 0 && atomic.LoadInt32(&s.stop) == 0 && len(s.found) == 0 && time.Now().Before(until.Add(-time.Second)) {
				// ended early for no reason known
				if i == from {
					s.trouble("worker made no progress")
					return
				}
			}
		default:
			s.mu.Lock()
			if atomic.LoadInt32(&s.stop) != 0 {
				s.mu.Unlock()
				return
			}
			s.mu.Unlock()
			if o.mark < 0 {
				s.trouble("worker ended with code %d before its first run: %s", o.rc, tail(o.stderr))
				return
			}
			s.died(prop, seed, o, from, int64(n))
			return
		}
	}
}

func (s *search) trouble(format string, a ...interface{}) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.bad == "" {
		s.bad = fmt.Sprintf(format, a...)
	}
	atomic.StoreInt32(&s.stop, 1)
}

const underTest = "github.com/powerpuffpenguin/sessionid"

// died looks into a worker that crashed or hung: the run is executed again,
// alone in a fresh process, and counts when the code under test is on the
// stack that failed.
func (s *search) died(prop string, seed uint64, o outcome, from, stride int64) {
	idx := o.mark
	var o2 outcome
	for _, st := range []struct{ from, max int64 }{{idx, 1}, {from, (idx-from)/stride + 1}} {
		j := &job{Mode: "run", Prop: prop, Seed: seed, From: st.from, Stride: stride, Max: st.max}
		o2 = runJob(j, 60*time.Second, func(*line) {})
		if o2.rc != 0 && o2.rc != 77 && o2.mark == idx {
			from = st.from
			break
		}
	}
	if o2.rc == 0 || o2.rc == 77 || o2.mark != idx {
		s.trouble("a worker ended with code %d in run %d, which did not happen again: %s", o.rc, idx, tail(o.stderr))
		return
	}
	class, msg := "crash", "the process crashed"
	if o2.hung {
		class, msg = "hang", "the run did not end"
	}
	st := crashStack(o2.stderr)
	if !strings.Contains(st, underTest) || ownFault(st) {
		s.trouble("a worker ended with code %d in run %d, outside the code under test: %s", o2.rc, idx, tail(o2.stderr))
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.crash = append(s.crash, &found{index: idx, from: from, stride: stride,
		res: &result{Violations: []violation{{Prop: prop, Class: class, Msg: msg + ": " + st}}}})
	atomic.StoreInt32(&s.stop, 1)
}

// crashStack returns the message and the stack of the goroutine that crashed.
func crashStack(s string) string {
	i := strings.Index(s, "fatal error:")
	if p := strings.Index(s, "panic:"); i < 0 || p >= 0 && p < i {
		i = p
	}
	if q := strings.Index(s, "SIGQUIT"); i < 0 {
		i = q
	}
	if i < 0 {
		return ""
	}
	s = s[i:]
	parts := strings.Split(s, "\n\n")
	out := parts[0]
	for _, p := range parts[1:] {
		if strings.HasPrefix(p, "goroutine ") {
			if strings.Contains(p[:strings.Index(p+"\n", "\n")], "running") || !strings.Contains(out, "goroutine") {
				out += "\n" + p
			}
			if strings.Contains(p, underTest) {
				break
			}
		}
	}
	if len(out) > 3000 {
		out = out[:3000]
	}
	return out
}

// ownFault reports whether the simulator itself failed: its code is on top of
// the stack, and not to report the misuse of a lock.
func ownFault(st string) bool {
	if strings.Contains(st, "panic: fatal error: sync:") || strings.HasPrefix(st, "SIGQUIT") {
		return false
	}
	i := strings.Index(st, "[running]:\n")
	if i < 0 {
		return false
	}
	for _, l := range strings.Split(st[i:], "\n")[1:] {
		if l == "" || strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.") {
			continue
		}
		return strings.HasPrefix(l, "verifsim/")
	}
	return false
}

func tail(s string) string {
	if len(s) > 1500 {
		return s[:700] + "\n...\n" + s[len(s)-700:]
	}
	return s
}

// ---- known findings ----

type known struct {
	prop, class string
	re          *regexp.Regexp
	text        string
}

// knownRe is a known finding as the workers know it.
type knownRe struct{ Class, Re string }

// loadKnown reads the "finding:" lines; "fixed:" lines suppress nothing.
func loadKnown(prop string) (ks []known) {
	b, e := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if e != nil {
		return
	}
	re := regexp.MustCompile(`^finding: property=(\S+) class=(\S+) match=/(.*)/ (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil && m[1] == prop {
			r, e := regexp.Compile(m[3])
			if e != nil {
				trouble("known-findings.txt: %v", e)
			}
			ks = append(ks, known{m[1], m[2], r, m[4]})
		}
	}
	return
}

func isKnown(ks []known, v violation) *known {
	for i := range ks {
		if ks[i].class == v.Class && ks[i].re.MatchString(v.Msg) {
			return &ks[i]
		}
	}
	return nil
}

func check(prop, tier string) int {
	seed := uint64(1)
	if v := os.Getenv("VERIF_SEED"); v != "" {
		n, e := strconv.ParseUint(v, 10, 64)
		if e != nil {
			m, e2 := strconv.ParseInt(v, 10, 64)
			if e2 != nil {
				trouble("VERIF_SEED=%q", v)
			}
			n = uint64(m)
		}
		seed = n
	}
	race = prop == "C16"
	secs := 60.0
	if tier == "thorough" {
		secs = 900
	}
	if v := os.Getenv("SIM_SECONDS"); v != "" {
		secs, _ = strconv.ParseFloat(v, 64)
	}
	note("property %s, tier %s, VERIF_SEED=%d", prop, tier, seed)
	build()
	note("built (instrumentation level %d, %d yield points)", level, len(sites)-1)
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	s := &search{hashes: map[uint64]struct{}{}}
	ks := loadKnown(prop)
	for _, k := range ks {
		s.known = append(s.known, knownRe{k.class, k.re.String()})
	}
	t0 := time.Now()
	until := t0.Add(time.Duration(secs * float64(time.Second)))
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() { defer wg.Done(); s.worker(i, n, prop, seed, until) }()
	}
	// When a violation is found, the others get a moment to find a smaller one.
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	for waiting := true; waiting; {
		select {
		case <-done:
			waiting = false
		case <-time.After(100 * time.Millisecond):
			if atomic.LoadInt32(&s.stop) != 0 {
				select {
				case <-done:
				case <-time.After(1500 * time.Millisecond):
					killAll()
					<-done
				}
				waiting = false
			}
		}
	}
	procMu.Lock()
	ending = false
	procMu.Unlock()
	wall := time.Since(t0)
	s.found = append(s.found, s.crash...)
	// known ones
	var fresh []*found
	seen := map[string]bool{}
	for _, f := range s.found {
		un := false
		for _, v := range f.res.Violations {
			if k := isKnown(ks, v); k != nil {
				if !seen[k.text] {
					seen[k.text] = true
				}
			} else {
				un = true
			}
		}
		if un {
			fresh = append(fresh, f)
		}
	}
	var texts []string
	for _, k := range ks {
		texts = append(texts, k.text)
	}
	for _, t := range texts {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, t)
	}
	if len(fresh) == 0 {
		if s.bad != "" {
			trouble("%s", s.bad)
		}
		if len(s.tot.Errors) > 0 {
			trouble("%d runs had trouble: %s", len(s.tot.Errors), s.tot.Errors[0])
		}
		if s.tot.Runs == 0 {
			trouble("no run was executed")
		}
	}
	note("%d runs in %.1fs, %d distinct schedules, %.1f h simulated", s.tot.Runs, wall.Seconds(), len(s.hashes), s.tot.SimTime/3600)
	det := map[string]interface{}{}
	if len(fresh) == 0 {
		det = determinism(prop, seed, n, s.first)
	}
	code := 0
	var replayPath string
	if len(fresh) > 0 {
		replayPath = report(prop, seed, fresh)
		code = 1
	}
	evidence(prop, tier, seed, s, wall, len(fresh), det, replayPath)
	if code == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replayPath)
	} else {
		note("property %s held in every run", prop)
	}
	return code
}

// determinism executes some runs again, in another process and not in the
// same company, and compares what happened step by step.
func determinism(prop string, seed uint64, n int, first []uint64) map[string]interface{} {
	var again []uint64
	max := int64(16)
	if int64(len(first)) < max {
		max = int64(len(first))
	}
	if max == 0 {
		return map[string]interface{}{"compared": 0}
	}
	half := max / 2
	get := func(from, cnt int64) {
		for cnt > 0 {
			next := int64(-1)
			before := len(again)
			runJob(&job{Mode: "run", Prop: prop, Seed: seed, From: from, Stride: int64(n), Max: cnt}, 60*time.Second, func(l *line) {
				if l.Sum != nil {
					again = append(again, l.Sum.Hashes...)
					next = l.Sum.Next
				}
			})
			got := int64(len(again) - before)
			if got == 0 {
				return
			}
			cnt -= got
			from = next
		}
	}
	get(0, half)
	get(half*int64(n), max-half)
	diff := 0
	for i := range again {
		if int64(i) < max && again[i] != first[i] {
			diff++
		}
	}
	if diff > 0 || int64(len(again)) != max {
		fmt.Fprintf(os.Stderr, "warning: %d of %d runs executed again (of %d) went another way\n", diff, len(again), max)
	}
	return map[string]interface{}{"compared": len(again), "differed": diff}
}

func evidence(prop, tier string, seed uint64, s *search, wall time.Duration, viol int, det map[string]interface{}, replayPath string) {
	perHour := int64(0)
	if wall > 0 {
		perHour = int64(float64(s.tot.Runs) / wall.Hours())
	}
	kinds := []string{}
	for k := range s.tot.Kinds {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	samples := []interface{}{}
	for _, x := range s.sample {
		samples = append(samples, x)
	}
	if replayPath != "" {
		samples = append(samples, map[string]string{"violation": replayPath})
	}
	cov := map[string]interface{}{
		"evaluations":         s.tot.Runs,
		"distinct_nontrivial": len(s.hashes),
		"rule": "An evaluation is one simulated run: a generated system configuration, workload, fault plan and schedule (all from VERIF_SEED and the run's index), executed to its end and judged. " +
			"Two runs are distinct when the hash of their scheduling trace (which task ran, from which yield point, for every switch, with the operations' results) differs; every run executes operations of the real providers, so none is trivial.",
		"samples":                samples,
		"runs_per_hour":          perHour,
		"seeds_per_hour":         perHour,
		"simulated_time_s":       s.tot.SimTime,
		"scheduler_steps":        s.tot.Steps,
		"task_switches":          s.tot.Switches,
		"operations":             s.tot.Ops,
		"faults_injected":        s.tot.Faults,
		"workload_kinds":         s.tot.Kinds,
		"probes":                 s.tot.Probes,
		"inconclusive_histories": s.tot.Inconclusive,
		"worker_processes":       s.procs,
		"determinism_check":      det,
		"instrumentation_level":  level,
		"yield_points":           len(sites) - 1,
		"race_detector":          race,
		"components_real":        []string{"/repo (all packages, instrumented copy of the working tree)", "github.com/boltdb/bolt v1.3.1 (file, mmap and lock calls go to the simulated disk)", "github.com/go-redis/redis/v8 v8.8.2 (dialer goes to the simulated server)", "github.com/google/uuid v1.2.0", "encoding/gob, crypto"},
		"components_stub":        []string{"clock and timers (testing/synctest bubble, advanced by the simulator)", "goroutine scheduler (one task at a time, seeded)", "package sync (simulated locks)", "disk (simdisk)", "network and redis server (fakeredis, RESP over simulated connections)", "the clock and random source of google/uuid"},
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": int64(seed & (1<<63 - 1)), "level": levelOf(prop),
		"coverage": cov,
		"assumptions": []string{
			"The simulated disk, network and redis server behave as the real ones do in what the providers use (DESIGN.md, section on stubs).",
			"Preemption happens between statements of the code under test, at its locks, channel operations and I/O; not inside a statement or inside libraries.",
			"The search samples schedules and faults: what was not explored is not known.",
		},
		"wall_s":     time.Since(started).Seconds(),
		"violations": viol,
	}
	b, e := json.MarshalIndent(ev, "", " ")
	if e != nil {
		trouble("%v", e)
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0755)
	if e := os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0644); e != nil {
		trouble("%v", e)
	}
}

func levelOf(prop string) string {
	return "exploration"
}
