package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"
)

// execCases runs cases, in several processes, and returns their results; nil
// where a process died.
func execCases(cases []*simCase, procs int, trace, full bool) []*result {
	out := make([]*result, len(cases))
	if procs > len(cases) {
		procs = len(cases)
	}
	var wg sync.WaitGroup
	for p := 0; p < procs; p++ {
		var mine []int
		for i := p; i < len(cases); i += procs {
			mine = append(mine, i)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for len(mine) > 0 {
				j := &job{Mode: "exec", Trace: trace, Full: full}
				for _, i := range mine {
					j.Cases = append(j.Cases, cases[i])
				}
				last := -1
				o := runJob(j, 60*time.Second, func(l *line) {
					if l.Res != nil {
						out[mine[l.Case]] = l.Res
						last = l.Case
					}
				})
				if o.rc == 0 {
					return
				}
				if o.rc == 77 {
					mine = mine[last+1:]
				} else if last+2 <= len(mine) { // the next one killed the process
					mine = mine[last+2:]
				} else {
					return
				}
			}
		}()
	}
	wg.Wait()
	return out
}

func has(r *result, class string) bool {
	if r == nil || r.Error != "" {
		return false
	}
	for _, v := range r.Violations {
		if v.Class == class {
			return true
		}
	}
	return false
}

type minimizer struct {
	class  string
	cur    *simCase
	until  time.Time
	tried  int
	accept int
	seed   uint64
}

// try looks for the first candidate that still fails, replaying the current
// decisions or with fresh ones.
func (m *minimizer) try(cands []*plan, seeds int) int {
	const batch = 12
	for at := 0; at < len(cands); at += batch {
		if time.Now().After(m.until) {
			return -1
		}
		end := at + batch
		if end > len(cands) {
			end = len(cands)
		}
		var cs []*simCase
		var of []int
		for i := at; i < end; i++ {
			cs = append(cs, &simCase{Plan: cands[i], Choices: m.cur.Choices})
			of = append(of, i)
			for k := 0; k < seeds; k++ {
				m.seed = m.seed*6364136223846793005 + 1442695040888963407
				cs = append(cs, &simCase{Plan: cands[i], Seed: m.seed | 1})
				of = append(of, i)
			}
		}
		m.tried += len(cs)
		rs := execCases(cs, 8, false, false)
		for i, r := range rs {
			if has(r, m.class) {
				m.cur = &simCase{Plan: cands[of[i]], Choices: nonNil(r.Rec)}
				m.accept++
				return of[i]
			}
		}
	}
	return -1
}

func nonNil(c []int32) []int32 {
	if c == nil {
		return []int32{}
	}
	return c
}

// lists gives access to every operation list of a plan.
func (p *plan) lists() (ls []*[]raw) {
	for i := range p.Phases {
		ph := &p.Phases[i]
		ls = append(ls, &ph.Setup)
		for c := range ph.Clients {
			ls = append(ls, &ph.Clients[c])
		}
		ls = append(ls, &ph.Final)
	}
	return
}

func (m *minimizer) ops(seeds int) bool {
	any := false
	nl := len(m.cur.Plan.lists())
	maxLen := 0
	for _, l := range m.cur.Plan.lists() {
		if len(*l) > maxLen {
			maxLen = len(*l)
		}
	}
	for size := maxLen; size >= 1; size = (size + 1) / 2 {
		for {
			var cands []*plan
			for li := 0; li < nl; li++ {
				n := len(*m.cur.Plan.lists()[li])
				if n == 0 || size > n && size != maxLen {
					continue
				}
				for at := 0; at < n; at += size {
					q := m.cur.Plan.clone()
					l := q.lists()[li]
					end := at + size
					if end > n {
						end = n
					}
					*l = append((*l)[:at:at], (*l)[end:]...)
					cands = append(cands, q)
				}
			}
			if m.try(cands, seeds) < 0 {
				break
			}
			any = true
		}
		if size == 1 || time.Now().After(m.until) {
			break
		}
	}
	return any
}

func (m *minimizer) knobs(seeds int) bool {
	any := false
	for {
		var cands []*plan
		edit := func(f func(q *plan) bool) {
			q := m.cur.Plan.clone()
			if f(q) {
				cands = append(cands, q)
			}
		}
		p := m.cur.Plan
		if len(p.Phases) > 1 {
			for i := range p.Phases {
				i := i
				edit(func(q *plan) bool { q.Phases = append(q.Phases[:i:i], q.Phases[i+1:]...); return true })
			}
		}
		edit(func(q *plan) bool { // empty clients at the end
			did := false
			for i := range q.Phases {
				c := q.Phases[i].Clients
				for len(c) > 0 && len(c[len(c)-1]) == 0 {
					c = c[:len(c)-1]
					did = true
				}
				q.Phases[i].Clients = c
			}
			return did
		})
		var groups []string
		for g := range p.Faults {
			groups = append(groups, g)
		}
		sort.Strings(groups)
		for _, g := range groups {
			var names []string
			for k := range p.Faults[g] {
				names = append(names, k)
			}
			sort.Strings(names)
			for _, k := range names {
				g, k := g, k
				edit(func(q *plan) bool {
					switch v := q.Faults[g][k].(type) {
					case float64:
						if v != 0 {
							q.Faults[g][k] = 0
							return true
						}
					case bool:
						if v {
							q.Faults[g][k] = false
							return true
						}
					}
					return false
				})
			}
		}
		edit(func(q *plan) bool { d := q.Sched.Stall != 0; q.Sched.Stall = 0; return d })
		edit(func(q *plan) bool { d := q.Sched.Freeze != 0; q.Sched.Freeze = 0; return d })
		edit(func(q *plan) bool { d := q.Sched.Gap != 0; q.Sched.Gap = 0; return d })
		if len(cands) == 0 || m.try(cands, seeds) < 0 {
			return any
		}
		any = true
	}
}

// choices makes the decisions simpler: 0 is "go on, no fault".
func (m *minimizer) choices() {
	fails := func(lists [][]int32) int {
		var cs []*simCase
		for _, l := range lists {
			cs = append(cs, &simCase{Plan: m.cur.Plan, Choices: nonNil(l)})
		}
		m.tried += len(cs)
		for i, r := range execCases(cs, 8, false, false) {
			if has(r, m.class) {
				return i
			}
		}
		return -1
	}
	trim := func(c []int32) []int32 {
		for len(c) > 0 && c[len(c)-1] == 0 {
			c = c[:len(c)-1]
		}
		return c
	}
	m.cur.Choices = nonNil(trim(m.cur.Choices))
	// shortest prefix that still fails, roughly
	for len(m.cur.Choices) > 0 && time.Now().Before(m.until) {
		c := m.cur.Choices
		var ls [][]int32
		for k := 0; k < 16; k++ {
			ls = append(ls, c[:len(c)*k/16])
		}
		i := fails(ls)
		if i < 0 {
			break
		}
		m.cur.Choices = nonNil(trim(append([]int32{}, ls[i]...)))
		m.accept++
	}
	for size := (len(m.cur.Choices) + 1) / 2; size >= 1; size /= 2 {
		again := true
		for again && time.Now().Before(m.until) {
			again = false
			c := m.cur.Choices
			var ls [][]int32
			for at := 0; at < len(c); at += size {
				end := at + size
				if end > len(c) {
					end = len(c)
				}
				zero := true
				for _, v := range c[at:end] {
					if v != 0 {
						zero = false
					}
				}
				if zero {
					continue
				}
				d := append([]int32{}, c...)
				for k := at; k < end; k++ {
					d[k] = 0
				}
				ls = append(ls, trim(d))
			}
			for at := 0; at < len(ls) && time.Now().Before(m.until); at += 64 {
				end := at + 64
				if end > len(ls) {
					end = len(ls)
				}
				if i := fails(ls[at:end]); i >= 0 {
					m.cur.Choices = nonNil(ls[at+i])
					m.accept++
					again = true
					break
				}
			}
		}
		if time.Now().After(m.until) {
			return
		}
	}
}

// ---- reporting ----

type replayFile struct {
	Property string
	Class    string
	Message  string
	How      string
	Seed     uint64    // VERIF_SEED
	Index    int64     // of the run
	Case     *simCase  `json:",omitempty"`
	Original *simCase  `json:",omitempty"`
	Sequence *sequence `json:",omitempty"`
	Nonzero  int       // decisions that are not the default
	Ops      int
	Tried    int
	Attempts int      `json:",omitempty"` // not deterministic: try that often
	History  []raw    `json:",omitempty"`
	Trace    []string `json:",omitempty"`
}

// sequence names generated runs executed one after another by one process.
type sequence struct {
	Prop              string
	Seed              uint64
	From, Stride, Max int64
	Crash             bool
}

func (s *sequence) run(class string) (*violation, string) {
	var v *violation
	if s.Crash {
		o := runJob(&job{Mode: "run", Prop: s.Prop, Seed: s.Seed, From: s.From, Stride: s.Stride, Max: s.Max}, 60*time.Second, func(*line) {})
		if o.rc != 0 && o.rc != 77 {
			return &violation{Class: class, Msg: crashStack(o.stderr)}, ""
		}
		return nil, ""
	}
	from, max := s.From, s.Max
	for max > 0 {
		next := int64(-1)
		runs := int64(0)
		o := runJob(&job{Mode: "run", Prop: s.Prop, Seed: s.Seed, From: from, Stride: s.Stride, Max: max}, 60*time.Second, func(l *line) {
			if l.Sum != nil {
				next, runs = l.Sum.Next, runs+l.Sum.Runs
			}
			if l.Res != nil {
				for i := range l.Res.Violations {
					if l.Res.Violations[i].Class == class && v == nil {
						v = &l.Res.Violations[i]
					}
				}
			}
		})
		if o.rc != 77 || runs == 0 {
			break
		}
		from, max = next, max-runs
	}
	return v, ""
}

func report(prop string, seed uint64, fs []*found) string {
	sort.SliceStable(fs, func(i, j int) bool {
		a, b := 1<<30, 1<<30
		if fs[i].plan != nil {
			a = fs[i].plan.ops()
		}
		if fs[j].plan != nil {
			b = fs[j].plan.ops()
		}
		return a < b
	})
	limit := 60 * time.Second
	if race { // slower, and the report says where to look
		limit = 30 * time.Second
	}
	if v := os.Getenv("SIM_MINIMIZE"); v != "" {
		limit, _ = time.ParseDuration(v)
	}
	f := fs[0]
	v := f.res.Violations[0]
	note("violation in run %d: %s: %s", f.index, v.Class, cut(v.Msg, 1500))
	rf := &replayFile{Property: prop, Class: v.Class, Message: v.Msg, Seed: seed, Index: f.index,
		How: "run: ./replay.sh <this file>   (in /verif; rebuilds the simulator from /repo and executes exactly this run)"}
	if f.plan == nil { // the process died
		rf.Sequence = &sequence{Prop: prop, Seed: seed, From: f.from, Stride: f.stride, Max: (f.index-f.from)/f.stride + 1, Crash: true}
		return write(rf)
	}
	for _, f = range fs {
		if f.plan == nil {
			continue
		}
		v = f.res.Violations[0]
		rf.Class, rf.Message, rf.Index = v.Class, v.Msg, f.index
		orig := &simCase{Plan: f.plan, Choices: nonNil(f.res.Rec)}
		if r := execCases([]*simCase{orig}, 1, false, false)[0]; has(r, v.Class) {
			m := &minimizer{class: v.Class, cur: orig, until: time.Now().Add(limit), seed: seed ^ f.seed}
			for round := 0; round < 4 && time.Now().Before(m.until); round++ {
				a := m.ops(3)
				b := m.knobs(3)
				if !a && !b {
					break
				}
			}
			m.choices()
			final := m.cur
			r := execCases([]*simCase{final}, 1, true, true)[0]
			r2 := execCases([]*simCase{final}, 1, true, true)[0]
			if !has(r, v.Class) || !has(r2, v.Class) || r.Hash != r2.Hash {
				final = orig
				r = execCases([]*simCase{final}, 1, true, true)[0]
			}
			if has(r, v.Class) {
				rf.Case = final
				if final != orig {
					rf.Original = orig
				}
				for _, x := range r.Violations {
					if x.Class == v.Class {
						rf.Message = x.Msg
					}
				}
				rf.History, rf.Trace, rf.Ops, rf.Tried = r.History, r.Log, final.Plan.ops(), m.tried
				for _, c := range final.Choices {
					if c != 0 {
						rf.Nonzero++
					}
				}
				note("minimised from %d to %d operations and from %d to %d decisions in %d executions", f.plan.ops(), rf.Ops, count(f.res.Rec), rf.Nonzero, m.tried)
				note("%s", cut(rf.Message, 3000))
				return write(rf)
			}
		}
	}
	// It depends on the runs before it in the same process.
	for _, f := range fs {
		if f.plan == nil {
			continue
		}
		v := f.res.Violations[0]
		total := (f.index-f.from)/f.stride + 1
		for _, n := range []int64{2, 10, 100, 1000, total} {
			if n > total {
				n = total
			}
			sq := &sequence{Prop: prop, Seed: seed, From: f.index - (n-1)*f.stride, Stride: f.stride, Max: n}
			if x, _ := sq.run(v.Class); x != nil {
				rf.Class, rf.Message, rf.Index, rf.Sequence = v.Class, x.Msg, f.index, sq
				return write(rf)
			}
			if n == total {
				break
			}
		}
	}
	// Something in it is beyond the simulator's control: it happens sometimes.
	for _, f := range fs {
		if f.plan == nil {
			continue
		}
		v := f.res.Violations[0]
		c := &simCase{Plan: f.plan, Choices: nonNil(f.res.Rec)}
		if r, n := attempts(c, v.Class, 48); r != nil {
			note("the run is not deterministic: %d attempts until it happened again", n)
			rf.Class, rf.Index, rf.Case, rf.Attempts = v.Class, f.index, c, 10*n+40
			for _, x := range r.Violations {
				if x.Class == v.Class {
					rf.Message = x.Msg
				}
			}
			rf.History, rf.Trace, rf.Ops = r.History, r.Log, f.plan.ops()
			return write(rf)
		}
	}
	trouble("run %d reported %s (%s), which did not happen again", fs[0].index, fs[0].res.Violations[0].Class, cut(fs[0].res.Violations[0].Msg, 1000))
	return ""
}

// attempts executes a case, each time in a process of its own, until it fails.
func attempts(c *simCase, class string, max int) (hit *result, n int) {
	for n < max && hit == nil {
		var wg sync.WaitGroup
		rs := make([]*result, 8)
		for i := range rs {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				rs[i] = execCases([]*simCase{c}, 1, true, true)[0]
			}()
		}
		wg.Wait()
		n += len(rs)
		for _, r := range rs {
			if has(r, class) {
				hit = r
			}
		}
	}
	return
}

// printable keeps lines and what can be printed.
func printable(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r == '\n' || r == '\t' || strconv.IsPrint(r) && r != utf8.RuneError {
			sb.WriteRune(r)
		} else {
			q := strconv.QuoteRuneToASCII(r)
			sb.WriteString(q[1 : len(q)-1])
		}
	}
	return sb.String()
}

func count(c []int32) (n int) {
	for _, v := range c {
		if v != 0 {
			n++
		}
	}
	return
}

func cut(s string, n int) string {
	s = printable(s)
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func write(rf *replayFile) string {
	dir := filepath.Join(verif, "replays")
	if e := os.MkdirAll(dir, 0755); e != nil {
		trouble("%v", e)
	}
	b, e := json.MarshalIndent(rf, "", " ")
	if e != nil {
		trouble("%v", e)
	}
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", rf.Property, strings.ReplaceAll(rf.Class, "/", "_"), rf.Seed, rf.Index))
	if e := os.WriteFile(p, b, 0644); e != nil {
		trouble("%v", e)
	}
	return p
}

func replay(path string) int {
	b, e := os.ReadFile(path)
	if e != nil {
		trouble("%v", e)
	}
	var rf replayFile
	if e := json.Unmarshal(b, &rf); e != nil {
		trouble("%v", e)
	}
	race = rf.Property == "C16"
	build()
	hit := false
	switch {
	case rf.Case != nil:
		rf.Case.Choices = nonNil(rf.Case.Choices)
		r := execCases([]*simCase{rf.Case}, 1, true, true)[0]
		if rf.Attempts > 0 && !has(r, rf.Class) {
			if x, _ := attempts(rf.Case, rf.Class, rf.Attempts); x != nil {
				r = x
			}
		}
		if r == nil {
			trouble("the run did not end")
		}
		for _, l := range r.Log {
			fmt.Println(printable(l))
		}
		for _, v := range r.Violations {
			fmt.Printf("%s: %s\n", v.Class, printable(v.Msg))
			if v.Class == rf.Class {
				hit = true
			}
		}
	case rf.Sequence != nil:
		if v, _ := rf.Sequence.run(rf.Class); v != nil {
			fmt.Printf("%s: %s\n", v.Class, printable(v.Msg))
			hit = true
		}
	}
	if hit {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
		return 1
	}
	fmt.Println("the run did not break the property")
	return 0
}
