package harness

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"strconv"
	"testing"
	"time"

	"verifsim/simrt"
)

func mixSeed(a, b uint64) uint64 {
	r := rng{a*0x9E3779B97F4A7C15 ^ (b + 0x632BE59BD9B4E019)}
	r.u64()
	return r.u64()
}

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Job is what the driver asks of a worker.
type Job struct {
	Mode    string   // run: generated runs; exec: the given plans and choices
	Prop    string   //
	Seed    uint64   //
	From    int64    // first index
	Stride  int64    //
	Until   int64    // unix nanoseconds; 0: no time limit
	Max     int64    // number of runs; 0: no limit
	Trace   bool     //
	Cases   []*Case  // exec
	Out     string   // results, one JSON document per line
	Sites   []string // names of the yield points
	Full    bool     // report the whole result of each exec case
	MaxViol int
	Known   []Known // violations that are counted and not reported
	RaceLog string  // where the race detector reports
	Mark    string  // file that gets the index of the run that is executed
}

// Known describes violations of a finding that is on record.
type Known struct{ Class, Re string }

// Case is a run to be executed exactly.
type Case struct {
	Plan    *Plan
	Choices []int32 // nil: draw from Seed
	Seed    uint64
}

// Line is one report of a worker.
type Line struct {
	Index  int64
	Seed   uint64
	Plan   *Plan   `json:",omitempty"`
	Res    *Result `json:",omitempty"`
	Sum    *Sum    `json:",omitempty"`
	Case   int
	Leaked bool
}

// Sum adds up runs.
type Sum struct {
	Runs, Steps, Switches, Ops int64
	SimTime                    float64 // seconds
	Hashes                     []uint64
	Faults, Probes             map[string]int64
	Kinds                      map[string]int64
	Inconclusive               int64
	Next                       int64
	Errors                     []string
	Sample                     json.RawMessage `json:",omitempty"`
}

func TestWorker(t *testing.T) {
	path := os.Getenv("SIM_JOB")
	if path == "" {
		t.Skip("no job")
	}
	b, e := os.ReadFile(path)
	if e != nil {
		t.Fatal(e)
	}
	var job Job
	if e := json.Unmarshal(b, &job); e != nil {
		t.Fatal(e)
	}
	if len(job.Sites) > 0 {
		simrt.SiteNames = func(i int32) string {
			if int(i) < len(job.Sites) {
				return job.Sites[i]
			}
			return strconv.Itoa(int(i))
		}
	}
	if job.RaceLog != "" {
		RaceLog(job.RaceLog)
	}
	f, e := os.OpenFile(job.Out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0600)
	if e != nil {
		t.Fatal(e)
	}
	w := bufio.NewWriter(f)
	emit := func(l *Line) {
		b, e := json.Marshal(l)
		if e != nil {
			fmt.Fprintln(os.Stderr, "emit:", e)
			os.Exit(3)
		}
		w.Write(append(b, '\n'))
		w.Flush()
	}
	var mark *os.File
	if job.Mark != "" {
		if mark, e = os.Create(job.Mark); e != nil {
			t.Fatal(e)
		}
	}
	setMark := func(i int64) {
		if mark != nil {
			mark.WriteAt([]byte(fmt.Sprintf("%-20d", i)), 0)
		}
	}
	newSum := func() *Sum {
		return &Sum{Faults: map[string]int64{}, Probes: map[string]int64{}, Kinds: map[string]int64{}}
	}
	sum := newSum()
	var known []*regexp.Regexp
	for _, k := range job.Known {
		known = append(known, regexp.MustCompile(k.Re))
	}
	fresh := func(vs []Violation, sum *Sum) (out []Violation) {
	next:
		for _, v := range vs {
			for i, re := range known {
				if v.Class == job.Known[i].Class && re.MatchString(v.Msg) {
					sum.Probes["known-finding."+v.Class]++
					continue next
				}
			}
			out = append(out, v)
		}
		return
	}
	var cur Line
	viol := 0
	add := func(p *Plan, res *Result) {
		sum.Runs++
		sum.Steps += res.Steps
		sum.Switches += res.Switches
		sum.Ops += int64(res.Ops)
		sum.SimTime += res.SimTime.Seconds()
		sum.Hashes = append(sum.Hashes, res.Hash^strHash(p.Kind))
		sum.Kinds[p.Kind+"/"+p.Cfg.Backend]++
		sum.Inconclusive += int64(res.Inconclusive)
		for k, v := range res.Faults {
			sum.Faults[k] += v
		}
		for k, v := range res.Probes {
			sum.Probes[k] += v
		}
		if res.Error != "" {
			sum.Errors = append(sum.Errors, res.Error)
		}
		if sum.Runs == 3 && sum.Sample == nil {
			var h []string
			for _, r := range res.History {
				h = append(h, r.String())
			}
			sum.Sample, _ = json.Marshal(map[string]interface{}{"index": cur.Index, "plan": p, "history": h})
		}
		if res.Violations = fresh(res.Violations, sum); len(res.Violations) > 0 && res.Error == "" {
			viol++
			l := cur
			l.Plan = p
			l.Res = &Result{Violations: res.Violations, Rec: res.Rec, Steps: res.Steps, Hash: res.Hash, Leaked: res.Leaked}
			emit(&l)
		}
	}
	ServeLeaks(func(res *Result) {
		if job.Mode != "run" {
			l := cur
			l.Res, l.Leaked = res, true
			if !job.Full {
				l.Res.History, l.Res.Log = nil, nil
			}
			emit(&l)
		} else {
			add(cur.Plan, res)
			sum.Next = cur.Index + job.Stride
			emit(&Line{Sum: sum, Leaked: true})
		}
		os.Exit(77)
	})
	switch job.Mode {
	case "run1": // one generated run, with everything
		seed := mixSeed(mixSeed(job.Seed, strHash(job.Prop)), uint64(job.From))
		cur = Line{Index: job.From, Seed: seed, Plan: Gen(job.Prop, seed)}
		l := cur
		l.Res = RunPlan(t, cur.Plan, simrt.NewChooser(seed^0xabcdef), job.Trace)
		emit(&l)
	case "exec":
		for i, c := range job.Cases {
			setMark(int64(i))
			cur = Line{Case: i, Seed: c.Seed}
			ch := simrt.NewChooser(c.Seed)
			if c.Choices != nil {
				ch = simrt.Playback(c.Choices)
			}
			res := RunPlan(t, c.Plan, ch, job.Trace)
			l := cur
			l.Res = res
			if !job.Full {
				l.Res.History, l.Res.Log = nil, nil
			}
			emit(&l)
		}
	case "run":
		i := job.From
		for n := int64(0); job.Max == 0 || n < job.Max; n++ {
			if job.Until > 0 && time.Now().UnixNano() > job.Until {
				break
			}
			seed := mixSeed(mixSeed(job.Seed, strHash(job.Prop)), uint64(i))
			setMark(i)
			p := Gen(job.Prop, seed)
			cur = Line{Index: i, Seed: seed, Plan: p}
			began := time.Now()
			res := RunPlan(t, p, simrt.NewChooser(seed^0xabcdef), false)
			if d := time.Since(began); d > time.Second && os.Getenv("SIM_SLOW") != "" {
				fmt.Fprintf(os.Stderr, "run %d took %v\n", i, d)
			}
			add(p, res)
			i += job.Stride
			if job.MaxViol > 0 && viol >= job.MaxViol {
				break
			}
			if len(sum.Hashes) >= 2000 {
				sum.Next = i
				emit(&Line{Sum: sum})
				s := sum.Sample
				sum = newSum()
				if s != nil {
					sum.Sample = json.RawMessage("null")
				}
			}
		}
		sum.Next = i
		emit(&Line{Sum: sum})
	}
	if simrt.RaceEnabled {
		os.Exit(0) // the testing package counts the races that are none
	}
}
