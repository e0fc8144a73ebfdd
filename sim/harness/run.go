package harness

import (
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"verifsim/fakeredis"
	"verifsim/simdisk"
	"verifsim/simrt"
)

// RunPlan executes one simulated run and checks it.
func RunPlan(t *testing.T, p *Plan, ch *simrt.Chooser, trace bool) (res *Result) {
	res = &Result{Faults: map[string]int64{}, Probes: map[string]int64{}}
	var w *world
	var k *simrt.Kernel
	bubble(t, func() {
		if d := p.Opts["epoch"]; d > 0 {
			time.Sleep(time.Duration(d) * time.Second)
		}
		sp := simrt.Params{MeanGap: p.Sched.MeanGap, PCT: p.Sched.PCT, StallProb: p.Sched.Stall, FreezeProb: p.Sched.Freeze, MaxStall: time.Duration(p.Sched.MaxStall), Trace: trace}
		if v := p.Opts["maxsteps"]; v > 0 {
			sp.MaxSteps = int64(v)
		}
		sp.Horizon = p.horizon()
		k = simrt.New(sp, ch)
		prepare(ch)
		w = &world{k: k, p: p, sysn: &simrt.Node{Name: "sys"}, fresh: map[*inst]int{}}
		backends := map[string]bool{p.Cfg.Backend: true}
		if backends["bolt"] {
			ps := p.Cfg.PageSize
			if ps == 0 {
				ps = 4096
			}
			w.fs = simdisk.Mount(k, ps)
			if p.Opts["afterclose"] == 1 {
				w.watchDisk()
			}
		}
		if backends["redis"] {
			w.srv = fakeredis.New(k, &simrt.Node{Name: "redis"})
			w.srv.Skew, w.srv.Drift = time.Duration(p.Cfg.Skew), p.Cfg.Drift
			w.setFaults(false)
			if p.Opts["afterclose"] == 1 {
				w.watchRedis()
			}
		}
		k.Run(w.sysn, w.main)
		res.SimTime = k.Now()
		if res.SimTime > time.Hour {
			res.SimTime = time.Hour // runs that wait for "forever" would drown the others
		}
		alive := k.Alive()
		if len(alive) > 0 {
			res.Leaked = true
			if k.Aborted == "" {
				for t, st := range alive {
					res.Alive = append(res.Alive, t.Name+"\n"+st)
					if t.Node != nil && !t.Node.Dead && strings.Contains(st, "powerpuffpenguin/sessionid") && p.Opts["noleakcheck"] == 0 {
						w.violate("goroutine-left", "a goroutine of the provider still exists after it was closed and time passed: %s\n%s", t.Name, trimStack(st))
					}
				}
			}
		}
		if res.Leaked && leakHand != nil {
			leakHand <- func() { finish(w, k, res, trace); leakExit(res) }
			leakStop.Lock() // not a durable block: the bubble must not end
			leakStop.Lock()
		}
	})
	finish(w, k, res, trace)
	return res
}

// leakExit is called when goroutines are stuck in the bubble: the process
// cannot go on and has to hand over its result and end.  A goroutine outside
// the bubble does so.
var (
	leakExit func(*Result)
	leakHand chan func()
	leakStop sync.Mutex
)

// ServeLeaks starts that goroutine.
func ServeLeaks(exit func(*Result)) {
	leakExit = exit
	leakHand = make(chan func())
	go func() { (<-leakHand)() }()
}

func finish(w *world, k *simrt.Kernel, res *Result, trace bool) {
	p := w.p
	res.Steps, res.Switches, res.Hash = k.Steps, k.Switches, k.Hash
	res.Rec = k.Ch.Rec
	k.FlushLog()
	res.Log = k.Log
	res.Error = w.trouble
	for n, c := range k.Probes {
		res.Probes[n] += c
	}
	if w.fs != nil {
		for n, c := range w.fs.Count {
			res.Faults[n] += c
		}
	}
	if w.srv != nil {
		for n, c := range w.srv.Count {
			res.Faults[n] += c
		}
		if w.srv.Unsupported != "" {
			res.Error = "the simulated redis server lacks: " + w.srv.Unsupported
		}
	}
	for _, x := range k.Panics {
		w.violate("panic", "%s panicked: %s\n%s", x.Task, x.Value, trimStack(x.Stack))
	}
	if k.Aborted != "" {
		w.violate("hang", "%s", k.Aborted)
	}
	judgeRaces(w)
	res.History = w.hist
	res.Ops = len(w.hist)
	for _, r := range w.hist {
		res.Probes["op."+r.Op.Op+"."+resName(r)]++
	}
	judge(w, res)
	res.Violations = w.viol
	_ = p
}

func resName(r *Rec) string {
	if r.Ret == 0 {
		return "died"
	}
	return r.Res
}

// judge checks the recorded history.
func judge(w *world, res *Result) {
	p := w.p
	if res.Error != "" || w.k.Aborted != "" {
		return
	}
	for _, r := range w.hist {
		if r.Ret != 0 && r.Res == "other" && !r.Faulty && !r.Expect {
			w.violate("unexpected-error", "an operation failed although nothing was wrong with its storage: %s", r)
		}
	}
	if p.Opts["noclose"] == 0 {
		judgeClose(w)
	}
	if p.Opts["lin"] == 1 {
		mo := modelOpts{statusOnly: p.Opts["status"] == 1, cap: p.Opts["cap"] == 1, whole: p.Opts["whole"] == 1}
		bad, inc := linearizable(w.hist, mo, p.Cfg.Backend == "redis")
		res.Inconclusive += inc
		if bad != "" {
			w.violate("history", "%s", bad)
		}
	}
}

// Describe renders a failed run for its replay file.
func Describe(res *Result) string {
	var sb strings.Builder
	for _, v := range res.Violations {
		fmt.Fprintf(&sb, "%s: %s\n", v.Class, v.Msg)
	}
	return sb.String()
}
