// Package simrt is the deterministic scheduler of the simulation.
//
// Every goroutine of a run lives in one testing/synctest bubble (which gives it
// a simulated clock) and becomes a Task.  At most one task runs at a time: a
// task goes on until it reaches a yield point at which the chooser takes the
// processor away from it, until it blocks, or until it ends.  Yield points are
// inserted by the instrumenter before every statement of the code under test
// (Y), and are part of every simulated lock, disk and network operation.  All
// decisions come from the Chooser, so one seed is one execution.
package simrt

import (
	"context"
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"
)

// Node is a simulated process: the unit that crashes.
type Node struct {
	Name string
	Dead bool
	// Zombie nodes are dead ones whose leftover goroutines are being released.
}

type taskState uint8

const (
	stRunning taskState = iota // has the processor, or is blocked in a real channel operation
	stReady
	stWaiting
	stDone
)

// Task is one goroutine of the run.
type Task struct {
	race     uint64 // joins what the task did with what its waiter does next
	ID       int
	Name     string
	Node     *Node
	Harness  bool // started by the harness: the run waits for it
	Zombie   bool
	linger   bool
	goid     uint64
	wake     chan struct{}
	state    taskState
	pred     func() bool
	deadline time.Time
	timedOut bool
	exiting  bool
	site     int32
	label    string
	prio     int
	freeze   time.Time
}

// Panic is a panic that reached the top of a goroutine of the code under test.
type Panic struct {
	Task  string
	Value string
	Stack string
}

// Params are the per-run knobs of the scheduler.
type Params struct {
	MeanGap    int           // mean number of yield points between preemptions; 0: never preempt
	PCT        bool          // priority scheduling instead of uniform choice
	StallProb  int           // per mille of decisions at which simulated time passes while tasks are ready
	FreezeProb int           // per mille of decisions at which the chosen task is frozen instead
	MaxStall   time.Duration // longest such stall
	MaxSteps   int64
	Horizon    time.Duration // simulated time after which a run that has not ended hangs
	Trace      bool
}

// Kernel is the state of one run.
type Kernel struct {
	P  Params
	Ch *Chooser

	mu       sync.Mutex // real lock: goroutines that are not scheduled may arrive together
	tasks    []*Task
	byGoid   map[uint64]*Task
	known    map[uint64]*Node // goroutines whose children belong to the run
	newcomer []*Task
	cur      *Task
	curGoid  uint64
	gap      int64
	slice    int // yield points since the task was scheduled
	Steps    int64
	Switches int64
	seq      int64
	notify   chan struct{}
	start    time.Time
	rootGoid uint64
	harness  int // unfinished harness tasks

	Aborted  string // why the run was given up: a hang or a livelock
	aborting bool
	Panics   []Panic
	Hash     uint64 // of the schedule
	Log      []string
	logf     []func() string
	Probes   map[string]int64
	OnIdle   func()
}

var active *Kernel

// Active returns the running kernel, or nil outside a run.
//
//go:norace
func Active() *Kernel { return active }

// SiteNames maps site numbers to source positions (set by the instrumented build).
var SiteNames func(int32) string

func siteName(s int32) string {
	if SiteNames != nil && s > 0 {
		return SiteNames(s)
	}
	return fmt.Sprint(s)
}

// New makes a kernel; call Run inside a synctest bubble.
func New(p Params, ch *Chooser) *Kernel {
	if p.MaxSteps == 0 {
		p.MaxSteps = 400000
	}
	if p.Horizon == 0 {
		p.Horizon = 2000 * 24 * time.Hour
	}
	return &Kernel{P: p, Ch: ch, byGoid: map[uint64]*Task{}, known: map[uint64]*Node{}, Probes: map[string]int64{}, Hash: 14695981039346656037}
}

func (k *Kernel) mix(v uint64) { k.Hash = (k.Hash ^ v) * 1099511628211 }

// Seq is the global event sequence number: it grows with every use.
//
//go:norace
func (k *Kernel) Seq() int64 { k.seq++; return k.seq }

// Now is the simulated time since the run began.
//
//go:norace
func (k *Kernel) Now() time.Duration { return time.Since(k.start) }

// StartTime is the simulated wall clock at the beginning of the run.
func (k *Kernel) StartTime() time.Time { return k.start }

// Probe counts a rare condition.
//
//go:norace
func (k *Kernel) Probe(name string) { k.Probes[name]++ }

// Tracef adds a line to the event log, when it is kept.
//
//go:norace
func (k *Kernel) Tracef(format string, a ...interface{}) {
	if k.P.Trace {
		who := "-"
		if k.cur != nil {
			who = k.cur.Name
		}
		now := k.Now()
		k.logf = append(k.logf, func() string { return fmt.Sprintf("%12v %-10s %s", now, who, fmt.Sprintf(format, a...)) })
		k.flushLog()
	}
}

// flushLog renders the log.  Under the race detector that happens when the run
// is over: the pools of package fmt would order the tasks.
func (k *Kernel) flushLog() {
	if !RaceEnabled {
		k.FlushLog()
	}
}

// FlushLog renders what has not been rendered of the log.
func (k *Kernel) FlushLog() {
	for _, f := range k.logf {
		k.Log = append(k.Log, f())
	}
	k.logf = nil
}

//go:norace
func (k *Kernel) poke() {
	raceOff()
	select {
	case k.notify <- struct{}{}:
	default:
	}
	raceOn()
}

// The kernel's own lock must not order the tasks in the eyes of the race detector.
//
//go:norace
func (k *Kernel) lock() { raceOff(); k.mu.Lock() }

//go:norace
func (k *Kernel) unlock() { k.mu.Unlock(); raceOn() }

// Go starts a harness task on a node.  It does not run before it is scheduled.
//
//go:norace
func (k *Kernel) Go(node *Node, name string, fn func()) *Task {
	return k.spawn(node, name, true, false, fn)
}

// GoDaemon starts a task the run does not wait for.
//
//go:norace
func (k *Kernel) GoDaemon(node *Node, name string, fn func()) *Task {
	return k.spawn(node, name, false, false, fn)
}

//go:norace
func (k *Kernel) spawn(node *Node, name string, harness, zombie bool, fn func()) *Task {
	t := &Task{Name: name, Node: node, Harness: harness, Zombie: zombie, wake: make(chan struct{}, 1)}
	if harness {
		k.harness++
	}
	k.lock()
	k.newcomer = append(k.newcomer, t)
	k.unlock()
	go func() {
		k.lock()
		t.goid = curGoid()
		k.byGoid[t.goid] = t
		k.known[t.goid] = node
		t.state = stReady
		k.unlock()
		defer k.ended(t)
		k.poke()
		k.recvWake(t)
		if t.Node != nil && t.Node.Dead && !t.Zombie {
			return
		}
		defer k.recoverInto(t)
		fn()
	}()
	return t
}

// GoZombie starts a task that may run code of a dead node, to release what it holds.
func (k *Kernel) GoZombie(node *Node, name string, fn func()) *Task {
	return k.spawn(node, name, true, true, fn)
}

//go:norace
func (k *Kernel) recoverInto(t *Task) {
	if e := recover(); e != nil {
		k.addPanic(t, e)
	}
}

//go:norace
func (k *Kernel) addPanic(t *Task, e interface{}) {
	if t.exiting || t.Zombie || (t.Node != nil && t.Node.Dead) {
		return // the process is gone: nobody observes this
	}
	k.Panics = append(k.Panics, Panic{Task: t.Name, Value: fmt.Sprint(e), Stack: string(debug.Stack())})
}

//go:norace
func (k *Kernel) ended(t *Task) {
	RaceReleaseMerge(&t.race)
	k.lock()
	if t.state != stDone {
		t.state = stDone
		if t.Harness {
			k.harness--
		}
	}
	delete(k.byGoid, t.goid)
	k.unlock()
	k.poke()
}

// Done reports whether the task has ended.
func (t *Task) Done() bool { return t.state == stDone }

//go:norace
func (k *Kernel) recvWake(t *Task) {
	raceOff()
	<-t.wake
	raceOn()
}

// lookup finds or makes the task of the running goroutine; nil when the
// goroutine is none of the run's.
//
//go:norace
func (k *Kernel) lookup(g uint64) *Task {
	k.lock()
	defer k.unlock()
	if t := k.byGoid[g]; t != nil {
		return t
	}
	par := parentGoid()
	node, ok := k.known[par]
	if !ok && par != k.rootGoid {
		return nil
	}
	t := &Task{Node: node, goid: g, wake: make(chan struct{}, 1)}
	k.byGoid[g] = t
	k.known[g] = node
	k.newcomer = append(k.newcomer, t)
	return t
}

// Y is the yield point in front of every instrumented statement.
//
//go:norace
func Y(site int32) {
	k := active
	if k == nil {
		return
	}
	g := curGoid()
	if k.curGoid != g {
		k.arrive(g, site)
		return
	}
	t := k.cur
	if t.exiting {
		return
	}
	k.Steps++
	if k.slice++; k.slice > 5000 { // it may be spinning
		t.site, t.label = site, ""
		k.fair(t)
		return
	}
	if k.gap > 0 && k.Steps < k.P.MaxSteps && !k.aborting {
		k.gap--
		if k.gap > 0 {
			return
		}
	} else if k.gap == 0 && k.Steps < k.P.MaxSteps && !k.aborting {
		return // never preempt
	}
	t.site, t.label = site, ""
	k.park(t)
}

// arrive is called by a goroutine that runs without having been scheduled:
// one that was just started or whose channel operation was just completed.
//
//go:norace
func (k *Kernel) arrive(g uint64, site int32) {
	t := k.lookup(g)
	if t == nil || t.exiting {
		return
	}
	t.site, t.label = site, ""
	k.park(t)
}

// park gives up the processor; the task is ready to go on.
//
//go:norace
func (k *Kernel) park(t *Task) {
	t.state = stReady
	k.poke()
	k.recvWake(t)
	k.resumed(t)
}

//go:norace
func (k *Kernel) resumed(t *Task) {
	if t.Zombie {
		return
	}
	if k.aborting || (t.Node != nil && t.Node.Dead && !t.linger) {
		t.exiting = true
		runtime.Goexit()
	}
}

// Linger keeps a goroutine which the code under test started from vanishing
// with its process inside a simulated system call: the call is to fail instead.
// Somebody may be waiting for what the goroutine sends when it ends, in a channel
// operation in which it could not vanish with its process.
//
//go:norace
func (k *Kernel) Linger(on bool) {
	if t := k.self(); t != nil && !t.Harness {
		t.linger = on
	}
}

// self returns the task of the running goroutine, scheduled, or nil.
//
//go:norace
func (k *Kernel) self() *Task {
	g := curGoid()
	if k.curGoid == g {
		return k.cur
	}
	t := k.lookup(g)
	if t == nil || t.exiting {
		return t
	}
	k.park(t)
	return t
}

// Self is the task that is running; nil outside the run.
func Self() *Task {
	if k := active; k != nil {
		return k.self()
	}
	return nil
}

// Exiting reports whether the task is being torn down by a crash.
func (t *Task) Exiting() bool { return t == nil || t.exiting }

// Yield is a labelled scheduling point that may always switch.
//
//go:norace
func (k *Kernel) Yield(label string) {
	t := k.self()
	if t == nil || t.exiting {
		return
	}
	k.Steps++
	if k.P.MeanGap == 0 && !k.aborting && k.Steps < k.P.MaxSteps {
		return
	}
	t.site, t.label = 0, label
	k.park(t)
}

// WaitUntil blocks the task until pred holds (true) or the simulated time
// reaches deadline (false; the zero time means never).  pred is evaluated by
// the scheduler and must only read simulation state.
//
//go:norace
func (k *Kernel) WaitUntil(label string, pred func() bool, deadline time.Time) bool {
	t := k.self()
	if t == nil {
		panic("simrt: WaitUntil outside a run")
	}
	if t.exiting {
		return pred()
	}
	k.Steps++
	t.site, t.label = 0, label
	t.pred, t.deadline, t.timedOut = pred, deadline, false
	t.state = stWaiting
	k.poke()
	k.recvWake(t)
	t.pred = nil
	k.resumed(t)
	return !t.timedOut
}

// Sleep lets simulated time pass for the task.
//
//go:norace
func (k *Kernel) Sleep(d time.Duration) {
	if d > 0 {
		k.WaitUntil("sleep", func() bool { return false }, time.Now().Add(d))
	}
}

// Crash kills a node: none of its tasks executes anything any more.
//
//go:norace
func (k *Kernel) Crash(n *Node) {
	n.Dead = true
	k.Tracef("CRASH of %s", n.Name)
}

// ExitIfDead ends the calling task when its node has crashed.
//
//go:norace
func (k *Kernel) ExitIfDead() {
	t := k.self()
	if t == nil || t.exiting || t.Zombie || t.linger {
		return
	}
	if t.Node != nil && t.Node.Dead {
		t.exiting = true
		runtime.Goexit()
	}
}

// Wait blocks the task until all the given tasks have ended or died with their
// process (a dead task blocked in a channel operation ends only later, when the
// channel is released).
func (k *Kernel) Wait(label string, ts ...*Task) {
	k.WaitUntil(label, func() bool {
		for _, t := range ts {
			if t.state != stDone && (t.Zombie || t.Node == nil || !t.Node.Dead) {
				return false
			}
		}
		return true
	}, time.Time{})
	for _, t := range ts {
		if t.state == stDone {
			RaceAcquire(&t.race)
		}
	}
}

func (k *Kernel) drawGap() int64 {
	if k.P.MeanGap == 0 {
		return 0
	}
	return int64(k.Ch.Gap(k.P.MeanGap))
}

// Run executes main as the first task and schedules until it and every other
// harness task has ended.  Call inside a synctest bubble.
//
//go:norace
func (k *Kernel) Run(node *Node, main func()) {
	k.notify = make(chan struct{}, 1)
	k.start = time.Now()
	k.rootGoid = curGoid()
	k.known[k.rootGoid] = node
	active = k
	defer func() { active = nil }()
	k.Go(node, "main", main)
	raceOff() // not before: a goroutine started while it is off does not know what came before
	defer raceOn()
	timer := time.NewTimer(time.Hour)
	timer.Stop()
	defer timer.Stop()
	for {
		synctest.Wait()
		k.cur, k.curGoid = nil, 0
		k.admit()
		if k.over() {
			return
		}
		if k.aborting {
			if !k.stepAbort() {
				return
			}
			continue
		}
		if k.Steps >= k.P.MaxSteps {
			k.abort("no progress: step limit reached")
			continue
		}
		if k.Now() > k.P.Horizon {
			k.abort("no progress: simulated time limit reached")
			continue
		}
		now := time.Now()
		var ready []*Task
		var next time.Time
		for _, t := range k.tasks {
			switch t.state {
			case stWaiting:
				if t.Node != nil && t.Node.Dead && !t.Zombie {
					ready = append(ready, t)
				} else if t.pred() {
					ready = append(ready, t)
				} else if !t.deadline.IsZero() {
					if !t.deadline.After(now) {
						t.timedOut = true
						ready = append(ready, t)
					} else if next.IsZero() || t.deadline.Before(next) {
						next = t.deadline
					}
				}
			case stReady:
				if t.freeze.After(now) && !(t.Node != nil && t.Node.Dead) {
					if next.IsZero() || t.freeze.Before(next) {
						next = t.freeze
					}
				} else {
					ready = append(ready, t)
				}
			}
		}
		if len(ready) == 0 {
			if k.OnIdle != nil {
				k.OnIdle()
			}
			left := k.P.Horizon - k.Now() + time.Second
			if !next.IsZero() && next.Sub(now) < left {
				left = next.Sub(now)
			}
			// Nothing can run: let simulated time pass to the next event.
			timer.Reset(left)
			select {
			case <-k.notify:
				timer.Stop()
			case <-timer.C:
			}
			continue
		}
		k.dispatch(ready)
	}
}

// over reports whether every harness task has ended or is one of a dead process
// that is blocked in a channel operation.
//
//go:norace
func (k *Kernel) over() bool {
	n := k.harness
	if n == 0 {
		return true
	}
	for _, t := range k.tasks {
		if t.Harness && t.state == stRunning && !t.Zombie && t.Node != nil && t.Node.Dead {
			n--
		}
	}
	return n == 0
}

// admit numbers the goroutines that arrived since the last decision, in the
// order in which they were started.
//
//go:norace
func (k *Kernel) admit() {
	k.lock()
	defer k.unlock()
	if len(k.newcomer) > 0 {
		sort.SliceStable(k.newcomer, func(i, j int) bool { return k.newcomer[i].goid < k.newcomer[j].goid })
		for _, t := range k.newcomer {
			t.ID = len(k.tasks) + 1
			if t.Name == "" {
				n := ""
				if t.Node != nil {
					n = t.Node.Name
				}
				t.Name = fmt.Sprintf("bg%d@%s", t.ID, n)
			}
			if k.P.PCT {
				t.prio = k.Ch.Choose(1000, "prio")
			}
			k.tasks = append(k.tasks, t)
		}
		k.newcomer = k.newcomer[:0]
	}
	select {
	case <-k.notify:
	default:
	}
}

//go:norace
func (k *Kernel) dispatch(ready []*Task) {
	// The tasks of a crashed node vanish first: they execute nothing.
	for _, t := range ready {
		if t.Node != nil && t.Node.Dead && !t.Zombie {
			k.run(t, 0)
			return
		}
	}
	if k.P.StallProb > 0 && k.Ch.Chance(k.P.StallProb, "stall") {
		d := k.Ch.Duration(k.P.MaxStall, "stalldur")
		k.Tracef("time passes: %v", d)
		k.Probe("sched.stall")
		time.Sleep(d)
		return
	}
	var t *Task
	if k.P.PCT {
		t = ready[0]
		for _, r := range ready[1:] {
			if r.prio > t.prio {
				t = r
			}
		}
		if len(ready) > 1 && k.Ch.Chance(60, "pctdrop") {
			t.prio = -int(k.Switches) - 1
			best := ready[0]
			for _, r := range ready[1:] {
				if r.prio > best.prio {
					best = r
				}
			}
			t = best
		}
	} else {
		i := 0
		if len(ready) > 1 {
			i = k.Ch.Choose(len(ready), "task")
		}
		t = ready[i]
	}
	if k.P.FreezeProb > 0 && t.state == stReady && len(ready) > 1 && k.Ch.Chance(k.P.FreezeProb, "freeze") {
		d := k.Ch.Duration(k.P.MaxStall, "freezedur")
		t.freeze = time.Now().Add(d)
		k.Tracef("%s frozen for %v", t.Name, d)
		k.Probe("sched.freeze")
		return
	}
	k.run(t, k.drawGap())
}

//go:norace
func (k *Kernel) run(t *Task, gap int64) {
	k.Switches++
	k.mix(uint64(t.ID)<<32 | uint64(uint32(t.site)))
	if k.P.Trace {
		at := t.label
		if at == "" {
			at = siteName(t.site)
		}
		now, name := k.Now(), t.Name
		k.logf = append(k.logf, func() string { return fmt.Sprintf("%12v run %-10s at %s", now, name, at) })
		k.flushLog()
	}
	t.state = stRunning
	t.freeze = time.Time{}
	k.cur, k.curGoid, k.gap, k.slice = t, t.goid, gap, 0
	t.wake <- struct{}{}
}

//go:norace
func (k *Kernel) abort(why string) {
	k.Aborted = why + "; waiting: " + k.Blocked()
	k.aborting = true
}

// stepAbort lets the parked tasks end one by one.
//
//go:norace
func (k *Kernel) stepAbort() bool {
	for _, t := range k.tasks {
		if t.state == stReady || t.state == stWaiting {
			t.Zombie = false
			k.run(t, 0)
			return true
		}
	}
	return false
}

// Blocked describes the tasks that have not ended and where they are.
//
//go:norace
func (k *Kernel) Blocked() string {
	var s []string
	for _, t := range k.tasks {
		if t.state == stDone || (!t.Harness && t.state == stRunning) {
			continue
		}
		at := t.label
		if at == "" {
			at = siteName(t.site)
		}
		if t.state == stRunning {
			at = "after " + at + " (blocked in a channel operation)"
		}
		s = append(s, t.Name+" at "+at)
	}
	return strings.Join(s, ", ")
}

// Alive returns the goroutines of the run that still exist, other than the
// harness tasks that have ended, with the stack of each.
func (k *Kernel) Alive() map[*Task]string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	res := map[*Task]string{}
	k.lock()
	defer k.unlock()
	for _, g := range strings.Split(string(buf), "\n\n") {
		var id uint64
		if _, e := fmt.Sscanf(g, "goroutine %d ", &id); e == nil {
			if t := k.byGoid[id]; t != nil && t.state != stDone {
				res[t] = g
			}
		}
	}
	return res
}

// Guard0..Guard3 replace "go f(args)" in instrumented code: a panic that would
// have killed the process is recorded instead, and the task's end is known.

//go:norace
func guarded(run func()) {
	k := active
	if k == nil {
		run()
		return
	}
	t := k.lookup(curGoid())
	if t == nil {
		run()
		return
	}
	defer k.ended(t)
	defer k.recoverInto(t)
	if !t.exiting {
		k.park(t)
	}
	run()
}

// adopted runs f in a goroutine that the runtime started, as one of the process
// which asked for it.
//
//go:norace
func adopted(node *Node, k *Kernel, f func()) {
	if k != active || k == nil {
		return // asked for by a run that is over
	}
	g := curGoid()
	k.lock()
	if k.byGoid[g] == nil {
		t := &Task{Node: node, goid: g, wake: make(chan struct{}, 1)}
		k.byGoid[g] = t
		k.known[g] = node
		k.newcomer = append(k.newcomer, t)
	}
	k.unlock()
	guarded(f)
}

// owner is the process of the running goroutine, when it belongs to a run.
//
//go:norace
func owner() (*Node, *Kernel) {
	k := active
	if k == nil {
		return nil, nil
	}
	t := k.self()
	if t == nil {
		return nil, nil
	}
	return t.Node, k
}

// AfterFunc stands in for time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *time.Timer {
	node, k := owner()
	if k == nil {
		return time.AfterFunc(d, f)
	}
	return time.AfterFunc(d, func() { adopted(node, k, f) })
}

// CtxAfterFunc stands in for context.AfterFunc.
func CtxAfterFunc(ctx context.Context, f func()) func() bool {
	node, k := owner()
	if k == nil {
		return context.AfterFunc(ctx, f)
	}
	return context.AfterFunc(ctx, func() { adopted(node, k, f) })
}

// Gosched stands in for runtime.Gosched.
//
//go:norace
func Gosched() {
	k := active
	if k == nil {
		runtime.Gosched()
		return
	}
	if t := k.self(); t != nil && !t.exiting {
		k.Steps++
		k.fair(t)
	}
}

// fair lets every other task go first: this one may be waiting for them.
//
//go:norace
func (k *Kernel) fair(t *Task) {
	if k.P.PCT {
		t.prio = -int(k.Switches) - 1
	}
	k.park(t)
}

func Guard0(f func())                                    { guarded(f) }
func Guard1[A any](f func(A), a A)                       { guarded(func() { f(a) }) }
func Guard2[A, B any](f func(A, B), a A, b B)            { guarded(func() { f(a, b) }) }
func Guard3[A, B, C any](f func(A, B, C), a A, b B, c C) { guarded(func() { f(a, b, c) }) }

// Pick chooses which case of a select statement is tried first.
//
//go:norace
func Pick(n int) int {
	k := active
	if k == nil {
		return 0
	}
	if t := k.self(); t == nil || t.exiting {
		return 0
	}
	return k.Ch.Choose(n, "select")
}

// MapEntry is one key of a map that is ranged over.
type MapEntry[M ~map[K]V, K comparable, V any] struct {
	M M
	K K
}

// MapIter lists the keys of a map in a chosen, repeatable order.
//
//go:norace
func MapIter[M ~map[K]V, K comparable, V any](m M) []MapEntry[M, K, V] {
	ks := MapKeys[M, K, V](m)
	out := make([]MapEntry[M, K, V], len(ks))
	for i, k := range ks {
		out[i] = MapEntry[M, K, V]{m, k}
	}
	return out
}

// MapKeys returns the keys of a map in a chosen, repeatable order.
//
//go:norace
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	names := make([]string, len(keys))
	for i, k := range keys {
		names[i] = fmt.Sprint(k)
	}
	idx := make([]int, len(keys))
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(i, j int) bool { return names[idx[i]] < names[idx[j]] })
	out := make([]K, len(keys))
	for i, j := range idx {
		out[i] = keys[j]
	}
	if k := active; k != nil && len(out) > 1 {
		r := k.Ch.Choose(len(out), "maporder")
		out = append(out[r:len(out):len(out)], out[:r]...)
		if len(out) > 2 && k.Ch.Choose(2, "mapdir") == 1 {
			for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}
