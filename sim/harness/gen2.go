package harness

import (
	"fmt"
	"slices"
	"strings"
	"time"
)

// seqgen writes a sequential history whose times the generator decides, so that
// it can aim at deadlines.
type seqgen struct {
	*builder
	now     time.Duration
	cfg     *Cfg
	live    map[string]*gsess // by space and token
	toks    []tok
	ids     []string
	fresh   func(id string) tok
	nasty   bool
	spaces  int
	ops     []Op
	jump    int // per cent of operations that move the clock
	origin  time.Duration
	noclamp bool
	multi   bool // refresh onto existing tokens, recreate and so on
}

type gsess struct {
	t    tok
	a, r time.Duration
	inst int
}

func newSeq(b *builder) *seqgen {
	g := &seqgen{builder: b, cfg: &b.p.Cfg, live: map[string]*gsess{}, ids: []string{"u1", "u2"}, spaces: 1, jump: 50, multi: true}
	g.fresh = func(id string) tok {
		b.n++
		return tok{id, fmt.Sprintf("%s.s.x%03d", id, b.n), fmt.Sprintf("%s.r.y%03d", id, b.n)}
	}
	return g
}

func gkey(inst int, t string) string { return fmt.Sprintf("%d/%s", inst, t) }

// advance moves the clock, often to just around a deadline or a tick.
func (g *seqgen) advance() {
	if !g.rng.p(g.jump) {
		return
	}
	var marks []time.Duration
	for _, k := range sortedSess(g.live) {
		marks = append(marks, g.live[k].a, g.live[k].r)
	}
	if c := time.Duration(g.cfg.Clear); c > 0 {
		d := g.now - g.origin
		marks = append(marks, g.origin+d/c*c+c)
	}
	switch g.rng.n(4) {
	case 0, 1:
		if len(marks) > 0 {
			m := marks[g.rng.n(len(marks))]
			off := pick(g.rng, -ms, -1, 0, 0, 1, ms, -1000, 1000, 2*ms, time.Second)
			if m+off >= g.now {
				g.now = m + off
			}
		}
	case 2:
		g.now += time.Duration(g.rng.dur(time.Duration(g.cfg.Access)))
	case 3:
		g.now += time.Duration(g.rng.dur(time.Duration(g.cfg.Refresh) / 3))
	}
}

// tick makes operations meet the cleaner at the instant it wakes, with a session
// dead since the last time, and looks shortly before it wakes again.
func (g *seqgen) tick(m mix) {
	c := time.Duration(g.cfg.Clear)
	if c < 3*ms || g.cfg.Backend == "redis" {
		return
	}
	var dead []time.Duration
	for _, k := range sortedSess(g.live) {
		dead = append(dead, g.live[k].r)
	}
	if len(dead) == 0 {
		return
	}
	at := g.origin + ((dead[g.rng.n(len(dead))]-g.origin)/c+1)*c
	if at < g.now || at > g.now+200*c {
		return
	}
	jump := g.jump
	g.now, g.jump = at, 0
	for i := 1 + g.rng.n(3); i > 0; i-- {
		g.step(g.rng.w(m...))
	}
	g.now, g.jump = at+c-pick(g.rng, 1, time.Microsecond, ms/2), jump
	g.emit(Op{Op: "residue"})
}

func sortedSess(m map[string]*gsess) []string {
	n := map[string]int64{}
	for k := range m {
		n[k] = 0
	}
	return sortedKeys(n)
}

func (g *seqgen) emit(o Op) {
	o.At = Dur(g.now)
	if o.Inst == 0 && g.spaces > 1 {
		o.Inst = 1 + g.rng.n(g.spaces)
	}
	in := o.Inst
	switch o.Op {
	case "create":
		g.live[gkey(in, string(o.T))] = &gsess{tok{"", string(o.T), string(o.R)}, g.now + time.Duration(g.cfg.Access), g.now + time.Duration(g.cfg.Refresh), in}
	case "refresh":
		if s := g.live[gkey(in, string(o.T))]; s != nil && s.t.r == string(o.R) && s.r > g.now {
			delete(g.live, gkey(in, string(o.T)))
			g.live[gkey(in, string(o.NT))] = &gsess{tok{"", string(o.NT), string(o.NR)}, g.now + time.Duration(g.cfg.Access), g.now + time.Duration(g.cfg.Refresh), in}
		}
	}
	g.ops = append(g.ops, o)
}

func (g *seqgen) add(id string) tok {
	t := g.fresh(id)
	g.toks = append(g.toks, t)
	return t
}

func (g *seqgen) id() string { return g.ids[g.rng.n(len(g.ids))] }

// some picks a token pair, preferably of a session that exists.
func (g *seqgen) some(in int) tok {
	if ks := sortedSess(g.live); len(ks) > 0 && g.rng.p(75) {
		s := g.live[ks[g.rng.n(len(ks))]]
		if in == 0 || s.inst == in || g.rng.p(30) {
			id, _ := split(s.t.a)
			return tok{id, s.t.a, s.t.r}
		}
	}
	if len(g.toks) == 0 {
		return g.add(g.id())
	}
	return g.toks[g.rng.n(len(g.toks))]
}

func (g *seqgen) createOp(t tok) Op {
	ks, vs := g.kv(4)
	return Op{Op: "create", T: Str(t.a), R: Str(t.r), Keys: ks, Vals: vs}
}

// step writes one operation of the given kind.
func (g *seqgen) step(kind string) {
	g.advance()
	in := 0
	if g.spaces > 1 {
		in = 1 + g.rng.n(g.spaces)
	}
	t := g.some(in)
	o := Op{Op: kind, T: Str(t.a), Inst: in}
	switch kind {
	case "create":
		if len(g.toks) == 0 || g.rng.p(75) || !g.multi {
			t = g.add(g.id())
		}
		o = g.createOp(t)
		if g.multi && g.rng.p(4) && len(g.toks) > 1 {
			o.R = Str(g.toks[g.rng.n(len(g.toks))].r)
		}
	case "destroy":
		o = Op{Op: kind, ID: Str(g.id())}
		if g.rng.p(60) {
			o.ID = Str(t.id)
		}
	case "put":
		o.Keys, o.Vals = g.kv(4)
	case "get", "del":
		if !g.rng.p(8) {
			o.Keys = g.someKeys(4)
		}
	case "refresh":
		var nt tok
		switch {
		case g.multi && g.rng.p(8):
			nt = g.some(in)
		case g.multi && g.rng.p(5):
			nt = t
		default:
			nt = g.add(t.id)
		}
		o.R, o.NT, o.NR = Str(t.r), Str(nt.a), Str(nt.r)
	case "badrefresh":
		o.Op = "refresh"
		nt := g.add(t.id) // u may be t, and the refresh succeed
		u := g.some(in)
		o.R, o.NT, o.NR = Str(u.r), Str(nt.a), Str(nt.r)
		switch g.rng.n(8) {
		case 5, 6:
			o.R = Str(near(g.rng, t.r))
		case 0:
			o.R = Str(t.a)
		case 1:
			o.T, o.R = Str(t.r), Str(t.a)
		case 2:
			o.R = Str(t.id + ".wrong." + "r")
		case 3:
			v := g.add(g.id())
			o.R, o.NT = Str(t.r), Str(v.a)
		case 4:
			v := g.add(g.id())
			o.R, o.NR = Str(t.r), Str(v.r)
		}
	case "malformed":
		bad := Str(pick(g.rng, "", ".", "x", "a.b", "u1.", ".u1", t.id, t.id+"."+"x", strings.ReplaceAll(t.a, ".", "")))
		o.Op = pick(g.rng, "create", "refresh", "check", "get", "keys", "put", "del", "destroyt", "refresh")
		nt := g.fresh(t.id)
		o.R, o.NT, o.NR = Str(t.r), Str(nt.a), Str(nt.r)
		o.Keys, o.Vals = []Str{"a"}, []Str{"zz"}
		switch f := g.rng.n(4); {
		case o.Op == "refresh" && f == 1, o.Op == "create" && f < 2:
			o.R = bad
		case o.Op == "refresh" && f == 2:
			o.NT = bad
		case o.Op == "refresh" && f == 3:
			o.NR = bad
		default:
			o.T = bad
		}
		if o.Op == "create" {
			o.NT, o.NR = "", ""
		} else if o.Op != "refresh" {
			o.R, o.NT, o.NR = "", "", ""
		}
	}
	if kind != "create" && kind != "malformed" && g.rng.p(3) {
		if kind == "destroy" {
			o.ID = Str(near(g.rng, string(o.ID)))
		} else if o.T != "" {
			o.T = Str(near(g.rng, string(o.T)))
		}
	}
	o.Inst = in
	g.emit(o)
}

// probe asks about every token without changing anything.
func (g *seqgen) probe(pc int) {
	for _, t := range g.toks {
		if !g.rng.p(pc) {
			continue
		}
		for in := 1; in <= g.spaces; in++ {
			o := Op{Op: "get", T: Str(t.a), Keys: g.allKeys(), Inst: in}
			switch g.rng.n(5) {
			case 0:
				o = Op{Op: "keys", T: Str(t.a), Inst: in}
			case 1, 2: // tells an expired session from one that is gone
				o = Op{Op: "refresh", T: Str(t.a), R: Str(t.id + ".wrong.r"), NT: Str(t.id + ".never.n"), NR: Str(t.id + ".never.m"), Inst: in}
			}
			if g.spaces == 1 {
				o.Inst = 0
			}
			g.emit(o)
		}
	}
}

// fill writes n operations.
func (g *seqgen) fill(n int, m mix) {
	if g.bulk > 0 && g.rng.p(50) {
		id, other := g.id(), pick(g.rng, 1, 10)
		for i := 0; i < g.bulk; i++ {
			if g.rng.p(other) {
				g.advance()
				id = g.id()
			}
			g.emit(g.createOp(g.add(id)))
		}
	}
	for i := 0; i < n; i++ {
		g.step(g.rng.w(m...))
		if g.rng.p(12) {
			g.probe(40)
		}
	}
}

// phase ends the current phase of the history.
func (g *seqgen) phase(end string, cfg *Cfg) {
	if c := cfg; !g.noclamp {
		if c == nil {
			c = &g.p.Cfg
		}
		if span := Dur(g.now - g.origin); c.Clear > 0 && span/c.Clear > 300 {
			c.Clear = span / 300
		}
	}
	ph := Phase{End: end, Setup: g.ops, OpenAt: Dur(g.origin)}
	if cfg != nil {
		c := *cfg
		ph.Cfg = &c
	}
	g.ops = nil
	g.p.Phases = append(g.p.Phases, ph)
	g.origin = g.now
}

func (b *builder) seqSched() {
	s := &b.p.Sched
	s.MeanGap = pick(b.rng, 4, 20, 100, 500)
	s.PCT = b.rng.p(20)
}

// rules draws the options that set the lifetimes: overridden ones, ones that
// contradict each other, only one of the pair.
func (b *builder) rules(c *Cfg) {
	a, r := c.Access, c.Refresh
	any := func() Rule {
		return Rule{b.rng.p(50), pick(b.rng, 1, a/2+1, a, r, r*2, Dur(hr), Dur(100*hr))}
	}
	c.Rules = nil
	for b.rng.p(50) {
		c.Rules = append(c.Rules, any())
	}
	switch b.rng.n(6) {
	case 0:
		c.Rules = append(c.Rules, Rule{false, a}, Rule{true, r})
	case 1:
		c.Rules = append(c.Rules, Rule{true, r}, Rule{false, a})
	case 2:
		c.Rules = append(c.Rules, Rule{false, a + b.rng.dur(3*time.Second)}, Rule{true, a})
	case 3:
		c.Rules = append(c.Rules, Rule{true, a}, Rule{false, r})
	case 4:
		c.Rules = []Rule{{true, r}}
	case 5:
		c.Rules = []Rule{{false, pick(b.rng, a, a, Dur(24*hr), Dur(25*hr))}}
	}
	c.Access, c.Refresh = lives(c.Rules)
}

// lives draws lifetimes for histories in which time matters.
func (b *builder) lives(c *Cfg) {
	c.Rules = nil
	switch b.rng.n(6) {
	case 0:
		c.Access, c.Refresh = Dur(time.Second), Dur(3*time.Second)
	case 1:
		c.Access = 1 + b.rng.dur(3*time.Second)
		c.Refresh = c.Access + b.rng.dur(3*time.Second)
	case 2:
		c.Access = pick(b.rng, Dur(1500*ms), Dur(999*ms), Dur(ms), Dur(time.Second+1), Dur(100*time.Microsecond), Dur(time.Minute))
		c.Refresh = c.Access + pick(b.rng, Dur(0), Dur(1), Dur(ms/2), Dur(ms), Dur(time.Second), Dur(999*ms))
	case 3:
		c.Access, c.Refresh = Dur(time.Hour), Dur(24*time.Hour)
	case 4:
		c.Access = Dur(time.Second) + b.rng.dur(10*time.Second)
		c.Refresh = c.Access * Dur(1+b.rng.n(4))
	case 5:
		if b.rng.p(50) {
			c.Access = Dur(hr) * pick(b.rng, Dur(2), 24, 200, 700, 1500)
			c.Refresh = c.Access * Dur(1+b.rng.n(2))
		} else {
			c.Access, c.Refresh = Dur(time.Second)+b.rng.dur(time.Second), Dur(24*hr)
		}
	}
	if b.rng.p(25) {
		b.rules(c)
	}
	c.Clear = pick(b.rng, 0, c.Refresh/3, c.Refresh, Dur(500*ms), Dur(10*time.Minute))
	if c.Clear > 0 && c.Clear < Dur(10*ms) {
		c.Clear = Dur(10 * ms)
	}
	if c.Clear > 0 && c.Refresh/c.Clear > 200 {
		c.Clear = c.Refresh / 200
	}
}

func genC03(r *rng) *Plan {
	kind := r.w("seq", 70, "timed", 20, "restart", 10)
	b := newBuilder("C03", kind, r)
	m := mix{"put", 4, "get", 4, "check", 4, "keys", 1, "del", 2, "refresh", 4, "badrefresh", 2, "create", 2, "destroyt", 1, "destroy", 1}
	if kind == "timed" {
		b.short = true
		b.cfg(b.backend(30, 30, 40))
		b.p.Cfg.Skew = pick(b.rng, 0, 0, Dur(time.Minute), Dur(-time.Hour))
		return b.concurrent(mix{"put", 3, "get", 3, "check", 3, "refresh", 3, "badrefresh", 1, "del", 1}, 2, 3, 5)
	}
	backend := b.backend(30, 35, 35)
	if kind == "restart" {
		backend = b.backend(0, 60, 40)
	}
	b.cfg(backend)
	c := &b.p.Cfg
	c.MaxSize = 0
	c.Latency = 0
	c.Insts = 1
	b.lives(c)
	if backend == "redis" {
		c.Skew = pick(b.rng, 0, 0, Dur(time.Second), Dur(-time.Second), Dur(48*time.Hour), Dur(-48*time.Hour), Dur(333*ms))
		c.Coder = b.rng.n(2)
	}
	c.OptRev = b.rng.p(30)
	b.seqSched()
	g := newSeq(b)
	g.jump = 70
	n := 1
	if kind == "restart" {
		n = 2 + b.rng.n(2)
	}
	for i := 0; i < n; i++ {
		g.fill(6+b.rng.n(16), m)
		g.probe(60)
		g.phase("close", nil)
		g.advance()
		g.origin = g.now
	}
	b.p.Opts["lin"] = 1
	return b.p
}

func genC07(r *rng) *Plan {
	kind := r.w("seq", 55, "conc", 15, "restart", 12, "crash", 11, "fault", 7)
	b := newBuilder("C07", kind, r)
	m := mix{"create", 8, "refresh", 4, "put", 2, "check", 1, "get", 1, "del", 1, "destroyt", 2, "destroy", 1, "badrefresh", 1}
	backend := b.backend(50, 50, 0)
	if kind == "restart" || kind == "crash" || kind == "fault" {
		backend = "bolt"
	}
	b.cfg(backend)
	if b.rng.p(12) { // bolt refuses it
		b.keys = append(b.keys, "")
	}
	c := &b.p.Cfg
	c.MaxSize = pick(b.rng, 1, 2, 2, 3, 3, 4, 5, 8, 0, -1)
	if b.bulk > 0 && b.rng.p(70) {
		c.MaxSize = pick(b.rng, 10, 64, b.bulk/2, b.bulk-1, b.bulk, b.bulk+5)
	}
	if kind == "conc" {
		b.sched()
		ph := Phase{End: "close"}
		b.workload(&ph, 1+b.rng.n(4), 2+b.rng.n(2), 3, mix{"refresh", 3, "put", 1, "destroyt", 1, "destroy", 1, "check", 2})
		for i := 0; i < 2; i++ {
			cl := b.rng.n(len(ph.Clients))
			ph.Clients[cl] = append(ph.Clients[cl], b.create(len(b.pool), pick(b.rng, "u1", "u2", "u3")))
		}
		b.probes(&ph)
		b.p.Phases = []Phase{ph}
		b.p.Opts["lin"], b.p.Opts["cap"], b.p.Opts["status"] = 1, 1, 1
		return b.p
	}
	if kind == "fault" { // one client, some of whose operations fail
		b.sched()
		b.diskFaults()
		c.MaxSize = pick(b.rng, 1, 2, 2, 3, 4)
		ph := Phase{End: "close"}
		b.workload(&ph, 1+b.rng.n(4), 1, 10, mix{"refresh", 3, "put", 1, "destroyt", 2, "destroy", 1, "check", 1, "recreate", 3})
		for j := 1 + b.rng.n(5); j > 0; j-- {
			ph.Clients[0] = append(ph.Clients[0], b.create(len(b.pool), pick(b.rng, "u1", "u2", "u3")))
		}
		b.probes(&ph)
		for j := 1 + b.rng.n(4); j > 0; j-- {
			ph.Final = append(ph.Final, b.create(len(b.pool), pick(b.rng, "u1", "u2", "u3")))
		}
		b.probes(&ph)
		b.p.Phases = []Phase{ph}
		b.p.Opts["lin"], b.p.Opts["cap"], b.p.Opts["status"] = 1, 1, 1
		return b.p
	}
	if b.rng.p(50) && kind != "crash" {
		b.lives(c)
	}
	b.seqSched()
	g := newSeq(b)
	g.jump = pick(b.rng, 0, 20, 60)
	if kind == "crash" { // one client, one operation in flight when the process dies
		b.crashFaults()
		delete(b.p.Opts, "killmid")
		b.p.Faults.Disk.Crash = pick(b.rng, 15, 40, 100)
		n := 1 + b.rng.n(3)
		for i := 0; i < n; i++ {
			cfg := *c
			if i > 0 && b.rng.p(50) {
				cfg.MaxSize = pick(b.rng, 1, 2, 3, 4, 0)
			}
			ph := Phase{End: pick(b.rng, "kill", "close"), Cfg: &cfg}
			b.workload(&ph, 1+b.rng.n(4), 1, 8, mix{"refresh", 3, "put", 1, "destroyt", 2, "destroy", 1, "check", 1, "recreate", 2})
			for j := b.rng.n(4); j > 0; j-- {
				ph.Clients[0] = append(ph.Clients[0], b.create(len(b.pool), pick(b.rng, "u1", "u2", "u3")))
			}
			b.p.Phases = append(b.p.Phases, ph)
		}
		last := Phase{End: "close"}
		cfg := *c
		cfg.MaxSize = pick(b.rng, 2, 3, 4, 6)
		last.Cfg = &cfg
		b.probes(&last)
		for j := 1 + b.rng.n(4); j > 0; j-- {
			last.Final = append(last.Final, b.create(len(b.pool), pick(b.rng, "u1", "u2", "u3")))
		}
		b.probes(&last)
		b.p.Phases = append(b.p.Phases, last)
		b.p.Opts["lin"], b.p.Opts["cap"], b.p.Opts["status"] = 1, 1, 1
		return b.p
	}
	if backend == "bolt" {
		m = append(m, "clear", pick(b.rng, 0, 0, 1))
	}
	g.ids = g.ids[:1+b.rng.n(2)]
	n := 1
	if kind == "restart" {
		n = 2 + b.rng.n(2)
	}
	for i := 0; i < n; i++ {
		cfg := *c
		if i > 0 {
			cfg.MaxSize = pick(b.rng, 1, 2, 3, 4, 6, 0)
			cfg.WithDB = b.rng.p(30)
		}
		g.cfg = &cfg
		g.fill(6+b.rng.n(20), m)
		g.probe(100)
		g.phase("close", &cfg)
		if b.rng.p(30) {
			g.advance()
		}
		g.origin = g.now
	}
	b.p.Opts["lin"], b.p.Opts["cap"] = 1, 1
	return b.p
}

func genC08(r *rng) *Plan {
	kind := r.w("seq", 53, "conc", 22, "restart", 13, "burst", 12, "again", 10, "order", 3)
	b := newBuilder("C08", kind, r)
	b.p.Opts["lin"] = 1
	if kind == "burst" {
		return b.burst()
	}
	if kind == "again" {
		return b.again()
	}
	if kind == "order" {
		return b.order()
	}
	if kind == "conc" {
		b.short = true
		b.cfg(b.backend(35, 30, 35))
		c := &b.p.Cfg
		if c.Clear == 0 {
			c.Clear = Dur(40 * ms)
		}
		c.WithDB = true
		m := mix{"put", 3, "get", 3, "check", 2, "keys", 1, "refresh", 3, "destroyt", 1, "destroy", 1, "recreate", 1}
		if b.rng.p(30) { // the tokens of dead sessions are used again
			c.Drift = 500
			m = mix{"put", 2, "get", 3, "check", 4, "keys", 2, "del", 1, "refresh", 2, "destroyt", 1, "recreate", 6}
		}
		p := b.concurrent(m, 3, 3, 5)
		if c.Drift == 500 && b.rng.p(70) { // in bursts, when those of the last burst are dead
			for _, ops := range p.Phases[0].Clients {
				for j := range ops {
					ops[j].D = 0
					if j%3 == 0 {
						ops[j].D = c.Refresh + pick(b.rng, 0, 1, Dur(ms))
					}
				}
			}
		}
		p.Phases[0].Settle = 2*c.Refresh + c.Clear + p.Sched.MaxStall + Dur(5*time.Second)
		p.Opts["allgone"] = 1
		return p
	}
	backend := b.backend(40, 40, 20)
	if kind == "restart" {
		backend = "bolt"
	}
	b.cfg(backend)
	c := &b.p.Cfg
	c.WithDB = true
	c.Insts = 1
	c.Latency = 0
	c.MaxSize = pick(b.rng, 0, 0, 1, 2, 3)
	if backend == "redis" {
		c.MaxSize = 0
	}
	b.lives(c)
	b.seqSched()
	g := newSeq(b)
	g.ids = []string{"u1", "u2", "u3"}[:1+b.rng.n(3)]
	m := mix{"create", 5, "refresh", 3, "put", 2, "check", 2, "get", 1, "keys", 1, "del", 1, "destroyt", 2, "destroy", 1, "badrefresh", 1}
	if backend == "bolt" {
		m = append(m, "clear", 1)
	}
	n := 1
	if kind == "restart" {
		n = 2 + b.rng.n(2)
	}
	b.p.Opts["cap"] = 1
	g.noclamp = true
	for i := 0; i < n; i++ {
		k := 2 + b.rng.n(4)
		for j := 0; j < k; j++ {
			g.fill(1+b.rng.n(6), m)
			if b.rng.p(30) {
				g.probe(50)
			}
			if b.rng.p(25) {
				g.tick(m)
			}
			if b.rng.p(70) {
				g.now += pick(b.rng, 0, ms, time.Second, 2*time.Second, time.Duration(c.Clear)+2*ms, time.Duration(c.Refresh)+time.Duration(c.Clear)+2*ms)
				g.emit(Op{Op: "residue"})
			}
		}
		if i == n-1 {
			// everything goes
			switch {
			case b.rng.p(40):
				for _, id := range g.ids {
					g.emit(Op{Op: "destroy", ID: Str(id)})
				}
				g.now += 2 * ms
			case backend == "redis" || c.Clear > 0 && b.rng.p(70):
				g.now += time.Duration(c.Refresh) + time.Duration(c.Clear) + time.Second
			case backend == "bolt" && b.rng.p(30):
				g.emit(Op{Op: "clear"})
			default:
				g.now += time.Duration(c.Refresh) + 1
				g.toks = dedup(g.toks)
				for _, t := range g.toks {
					o := Op{Op: pick(b.rng, "check", "get", "keys", "put", "del", "refresh", "destroyt"), T: Str(t.a)}
					if o.Op == "refresh" {
						nt := g.fresh(t.id)
						o.R, o.NT, o.NR = Str(t.r), Str(nt.a), Str(nt.r)
					} else if o.Op == "get" || o.Op == "del" {
						o.Keys = []Str{"a"}
					}
					g.emit(o)
				}
				g.now += 2 * time.Second
			}
			g.emit(Op{Op: "residue", N: 1})
		}
		g.phase("close", nil)
		if b.rng.p(50) {
			g.advance()
			g.origin = g.now
		}
	}
	return b.p
}

// burst makes a history in which many sessions die unnoticed and are then
// touched, all at once, by operations that only read.
func (b *builder) burst() *Plan {
	b.short = true
	b.cfg(b.backend(35, 35, 30))
	c := &b.p.Cfg
	c.Clear = pick(b.rng, Dur(0), Dur(0), Dur(0), Dur(10*time.Minute))
	c.WithDB = true
	c.MaxSize = pick(b.rng, 0, -1, 1000)
	c.Batch = pick(b.rng, -1, 0, 1, 2, 2, 3, 128)
	if c.Backend == "redis" {
		c.Drift = pick(b.rng, 500, 990)
	}
	b.sched()
	ph := Phase{End: "close"}
	n := 2 + b.rng.n(7)
	if b.bulk > 40 {
		b.bulk = 40
	}
	n += b.bulk
	for i := 0; i < n; i++ {
		ph.Setup = append(ph.Setup, b.create(i, pick(b.rng, "u1", "u2", "u3")))
		if b.rng.p(10) {
			ph.Setup = append(ph.Setup, b.op("refresh", i))
		}
	}
	// the lifetimes may end during the setup, so that all tokens are touched
	var ts []tok
	for _, l := range b.pool {
		ts = append(ts, l...)
	}
	for i := range ts {
		j := i + b.rng.n(len(ts)-i)
		ts[i], ts[j] = ts[j], ts[i]
	}
	k := 1 + b.rng.n(4)
	ph.Clients = make([][]Op, k)
	for i, t := range ts {
		o := Op{Op: pick(b.rng, "check", "get", "keys"), T: Str(t.a)}
		if o.Op == "get" {
			o.Keys = b.someKeys(2)
		}
		x := &ph.Clients[i%k]
		if len(*x) == 0 {
			o.D = c.Refresh + pick(b.rng, Dur(1), Dur(ms))
		}
		*x = append(*x, o)
		if b.rng.p(10) { // others too
			*x = append(*x, b.op(pick(b.rng, "check", "get", "put", "destroyt"), b.rng.n(len(b.pool))))
		}
	}
	ph.Settle = b.p.Sched.MaxStall + pick(b.rng, Dur(time.Second), Dur(3*time.Second))
	b.p.Phases = []Phase{ph}
	b.p.Opts["allgone"] = 1
	return b.p
}

// again makes a history in which tokens are found dead and used again at about
// the same time, by sessions that expire long before they are dead.
func (b *builder) again() *Plan {
	b.short = true
	b.cfg(b.backend(40, 30, 30))
	c := &b.p.Cfg
	c.Access = pick(b.rng, Dur(1), Dur(1000), Dur(ms), Dur(3*ms), Dur(20*ms))
	c.Refresh = Dur(20*ms) + b.rng.dur(100*ms)
	c.Clear = pick(b.rng, Dur(0), Dur(10*time.Minute), Dur(30*ms))
	c.WithDB = true
	c.MaxSize = pick(b.rng, 0, -1, 1000)
	c.Batch = pick(b.rng, -1, 1, 2, 128)
	if c.Backend == "redis" {
		c.Drift = 500
	}
	b.sched()
	s := &b.p.Sched
	s.Stall, s.Freeze = pick(b.rng, 5, 20, 60), pick(b.rng, 0, 5, 20)
	s.MaxStall = pick(b.rng, Dur(ms), Dur(10*ms), c.Refresh)
	ph := Phase{End: "close"}
	n := 1 + b.rng.n(3)
	for i := 0; i < n; i++ {
		ph.Setup = append(ph.Setup, b.create(i, pick(b.rng, "u1", "u2")))
		t := b.pool[i][0]
		find := Op{Op: pick(b.rng, "check", "get", "keys"), T: Str(t.a)}
		ks, vs := b.kv(3)
		made := Op{Op: "create", T: Str(t.a), R: Str(t.r), Keys: ks, Vals: vs}
		find.D = c.Refresh + pick(b.rng, Dur(1), 1000)
		made.D = c.Refresh + pick(b.rng, Dur(1), Dur(2), 1000, Dur(ms))
		ops := []Op{made}
		for j := 1 + b.rng.n(3); j > 0; j-- {
			o := b.op(pick(b.rng, "check", "badrefresh", "refresh", "put", "get", "keys"), i)
			o.D = b.rng.dur(time.Duration(c.Access) * 2)
			ops = append(ops, o)
		}
		ph.Clients = append(ph.Clients, []Op{find}, ops)
	}
	b.probes(&ph)
	ph.Settle = 2*c.Refresh + c.Clear + s.MaxStall + Dur(2*time.Second)
	if c.Clear == 0 || c.Backend == "redis" || b.rng.p(60) {
		ph.Settle = 0
	} else {
		b.p.Opts["allgone"] = 1
	}
	b.p.Phases = []Phase{ph}
	b.p.Opts["lin"] = 1
	return b.p
}

// order makes a history over a restart with another lifetime, so that sessions
// do not die in the order in which they were made.
func (b *builder) order() *Plan {
	b.cfg("bolt")
	c := &b.p.Cfg
	c.WithDB = b.rng.p(50)
	c.Insts, c.Latency = 1, 0
	c.MaxSize = pick(b.rng, 0, 0, 1000) // whether a dead session counts that the cleaner overlooks is not judged
	c.Rules = nil
	c.Access = Dur(time.Second) + b.rng.dur(2*time.Second)
	c.Refresh = c.Access + b.rng.dur(3*time.Second)
	c.Clear = pick(b.rng, Dur(500*ms), Dur(time.Second), Dur(4*time.Second))
	b.p.Opts["cap"] = 1
	b.seqSched()
	g := newSeq(b)
	g.ids = []string{"u1", "u2"}
	g.noclamp = true
	m := mix{"create", 5, "refresh", 3, "put", 2, "get", 1}
	n := 2 + b.rng.n(2)
	for i := 0; i < n; i++ {
		cfg := *c
		if i > 0 {
			f := pick(b.rng, 1, 2, 3)
			cfg.Access, cfg.Refresh = cfg.Access*Dur(f), cfg.Refresh*Dur(f)
			if b.rng.p(50) {
				cfg.Access, cfg.Refresh = c.Access/Dur(f), c.Refresh/Dur(f)
			}
		}
		g.cfg = &cfg
		g.fill(1+b.rng.n(5), m)
		if i > 0 {
			g.now += pick(b.rng, time.Duration(cfg.Refresh), time.Duration(c.Refresh)) + time.Duration(cfg.Clear) + 2*ms
			g.emit(Op{Op: "residue"})
			g.fill(b.rng.n(4), m)
			g.probe(40)
		}
		if i == n-1 {
			g.now += 3*time.Duration(c.Refresh) + time.Duration(c.Clear) + time.Second
			g.emit(Op{Op: "residue", N: 1})
		}
		g.phase("close", &cfg)
		g.origin = g.now
	}
	return b.p
}

func dedup(ts []tok) (out []tok) {
	seen := map[string]bool{}
	for _, t := range ts {
		if !seen[t.a] {
			seen[t.a] = true
			out = append(out, t)
		}
	}
	return
}

func genC09(r *rng) *Plan {
	b := newBuilder("C09", r.w("conc", 48, "dead", 12, "slow", 20, "fault", 20), r)
	b.short = b.rng.p(60)
	b.cfg(b.backend(30, 35, 35))
	c := &b.p.Cfg
	c.Batch = pick(b.rng, -1, 0, 1, 2, 128)
	if c.Backend == "bolt" {
		c.WithDB = b.rng.p(50)
	}
	c.Insts = 1
	b.p.Opts["lin"], b.p.Opts["afterclose"] = 1, 1
	b.sched()
	if b.p.Kind == "slow" && c.Backend == "redis" {
		c.Latency = pick(b.rng, Dur(ms), Dur(20*ms))
	}
	if b.p.Kind == "slow" {
		b.p.Sched.Stall, b.p.Sched.MaxStall = 40, Dur(time.Second)
		b.p.Sched.Freeze = 10
	}
	if b.short && b.rng.p(50) { // dead at once: readers feed the background check
		c.Access = Dur(1 + b.rng.n(int(20*ms)))
		c.Refresh = c.Access + b.rng.dur(20*ms)
	}
	ph := Phase{End: "close", Settle: pick(b.rng, Dur(0), Dur(time.Second))}
	if b.p.Kind == "fault" {
		c.Backend = b.backend(0, 60, 40)
		insts := c.Insts
		if c.Backend == "redis" {
			b.netFaults()
		} else {
			b.diskFaults()
		}
		c.Insts = insts
		b.p.Faults.Net.Crash = 0
		ph.Settle = Dur(7 * time.Second)
	}
	b.workload(&ph, 1+b.rng.n(3), 2+b.rng.n(4), 4, mix{"check", 6, "get", 4, "keys", 4, "put", 3, "del", 2, "refresh", 2, "destroyt", 1, "destroy", 1})
	if c.Backend == "bolt" {
		for i := b.rng.n(3); i > 0; i-- {
			b.insert(&ph, Op{Op: "clear"})
		}
	}
	if c.Backend == "bolt" && !c.WithDB && b.rng.p(30) { // others try to open the file
		for i := 1 + b.rng.n(2); i > 0; i-- {
			b.insert(&ph, Op{Op: "open2", N: b.rng.n(100), D: b.rng.dur(30 * ms)})
		}
	}
	if b.p.Kind == "dead" { // every session is dead when the clients and Close come
		c.Access = 1
		c.Refresh = Dur(ms)
		c.Batch = pick(b.rng, -1, 0, 1, 2)
		for _, ops := range ph.Clients {
			for j := range ops {
				ops[j].D = 0
			}
			if len(ops) > 0 {
				ops[0].D = Dur(2 * ms)
			}
		}
		b.insert(&ph, Op{Op: "close"})
	}
	for i := b.rng.n(4); i > 0 && b.p.Kind != "dead"; i-- {
		o := Op{Op: "close"}
		if b.rng.p(50) {
			o.D = b.rng.dur(time.Duration(c.Refresh) + 2*ms)
			if !b.short {
				o.D = b.rng.dur(30 * ms)
			}
		}
		b.insert(&ph, o)
	}
	b.p.Phases = []Phase{ph}
	if c.Backend != "memory" && b.rng.p(40) { // the store can be used again at once
		last := Phase{End: "close"}
		b.readback(&last)
		last.Final = append(last.Final, b.create(len(b.pool), "u1"))
		b.p.Phases = append(b.p.Phases, last)
	}
	return b.p
}

func (b *builder) insert(ph *Phase, o Op) {
	c := b.rng.n(len(ph.Clients))
	at := b.rng.n(len(ph.Clients[c]) + 1)
	ops := append([]Op{}, ph.Clients[c][:at]...)
	ops = append(ops, o)
	ph.Clients[c] = append(ops, ph.Clients[c][at:]...)
}

var nastyIDs = []string{"", "u", "u1", "u10", "U1", "*", "?", "u*", "u?", "[u1]", "u[0-9]", `u\1`, `\`, "u1 ", " u1", "u1\x00", "\x00", "u1\n", "ü", "\xff\xfe", "count", "metadata", "ids", "lru", "data", "u1*", "s", "s:", "{u1}", "%d", "^u1", "[^a]", "[a-"}
var nastyMids = []string{"", "x", "s0", "a.b", "..", "*", "?", "[x]", `\`, "count", "\x00", "ids", "s\xff", " "}
var nastyKeys = []string{"a", "b", "A", "", "*", "count", "metadata", "ids", "data", "lru", "a\x00", "\x00", "\xff", "a.b", "__private_provider_redis", "__private_provider_redi", "meta", "ü", " ", "a b", "0"}
var nastyVals = []string{" ", "\n", "0", "-1", "null", "true", `"`, "%s", "\x80\x81", "{}", "", "v", "\x00", "nil", "\xff\xfe", "*", "v\r\nw", "$-1\r\n"}

// nastyNames replaces plain names by ones with every kind of character.
func (g *seqgen) nastyNames() {
	g.nasty = true
	g.ids = nil
	for i := 2 + g.rng.n(4); i > 0; i-- {
		g.ids = append(g.ids, nastyIDs[g.rng.n(len(nastyIDs))])
	}
	if g.rng.p(5) {
		g.ids = append(g.ids, strings.Repeat("L", pick(g.rng, 32000, 32768, 32769, 40000)))
	}
	g.keys = nil
	for i := 2 + g.rng.n(5); i > 0; i-- {
		g.keys = append(g.keys, nastyKeys[g.rng.n(len(nastyKeys))])
	}
	if g.rng.p(5) {
		g.keys = append(g.keys, strings.Repeat("K", pick(g.rng, 32768, 32769, 33000)))
	}
	g.fresh = func(id string) tok {
		g.n++
		mid := nastyMids[g.rng.n(len(nastyMids))]
		if g.rng.p(50) {
			mid += fmt.Sprint(g.n)
		}
		sig := pick(g.rng, "", "*", "x", fmt.Sprint(g.n), "S", "s")
		return tok{id, id + "." + mid + "." + sig, id + "." + mid + "." + sig + "r"}
	}
	g.builder.nastyVal = true
}

var spacePairs = [][2]Str{{"s.", "t."}, {"s.", "S."}, {"a*", "ab"}, {"s[1]", "s1"}, {"s?", "sx"}, {`s\`, "s*"}, {"s:1:", "s:2:"}, {"[ab].", "a."}, {"p^", "p["}, {"x.u1.", "x.u2."}, {`\*`, "*"}, {"?.", "u."}}

func genC05(r *rng) *Plan {
	kind := r.w("seq", 75, "conc", 25)
	b := newBuilder("C05", kind, r)
	backend := b.backend(25, 35, 40)
	if kind == "conc" {
		backend = b.backend(10, 40, 50)
	}
	b.cfg(backend)
	c := &b.p.Cfg
	c.MaxSize, c.Latency = 0, 0
	c.Insts = 1
	b.p.Opts["lin"] = 1
	if kind == "seq" && b.rng.p(2) { // one id with very many sessions
		b.bulk = 260 + b.rng.n(100)
		b.p.Opts["maxsteps"] = 3000000
	}
	two := b.rng.p(60)
	if backend != "memory" {
		sp := spacePairs[b.rng.n(len(spacePairs))]
		if backend == "bolt" {
			sp = pick(b.rng, [2]Str{"s.", "t."}, [2]Str{"sessions", "Sessions"}, [2]Str{"metadata", "data"}, [2]Str{"ids", "lru"}, [2]Str{"a", "ab"}, [2]Str{"count", "a\x00"})
			c.WithDB = true
		}
		c.Spaces = sp[:]
		if !two {
			i := b.rng.n(2)
			c.Spaces = sp[i : i+1]
		}
		b.p.Opts["foreign"] = 1
		if backend == "redis" {
			c.MetaKey = Str(pick(b.rng, "", "", "meta", "a", "*"))
		}
	}
	if two {
		c.Insts = 2
	}
	if kind == "conc" {
		b.sched()
		ph := Phase{End: "close"}
		b.workload(&ph, 2+b.rng.n(2), 2+b.rng.n(2), 4, mix{"put", 3, "get", 2, "del", 1, "refresh", 2, "destroyt", 1, "destroy", 3, "keys", 1, "recreate", 1})
		for i := range ph.Clients {
			for j := range ph.Clients[i] {
				if b.rng.p(50) {
					ph.Clients[i][j].Inst = 1 + b.rng.n(c.Insts)
				}
			}
		}
		for i := range ph.Setup {
			ph.Setup[i].Inst = 1 + b.rng.n(c.Insts)
		}
		b.readback(&ph)
		b.p.Phases = []Phase{ph}
		return b.p
	}
	b.seqSched()
	g := newSeq(b)
	if two {
		g.spaces = 2
	}
	if b.rng.p(85) {
		g.nastyNames()
		if backend == "redis" && c.MetaKey != "" {
			g.keys = append(g.keys, string(c.MetaKey))
		}
	}
	if b.rng.p(30) {
		b.lives(c)
	} else {
		g.jump = 5
	}
	m := mix{"create", 6, "put", 5, "get", 3, "del", 3, "keys", 3, "check", 1, "refresh", 3, "destroyt", 2, "destroy", 4, "badrefresh", 1}
	g.fill(8+b.rng.n(20), m)
	g.probe(100)
	g.phase("close", nil)
	return b.p
}

func genC12(r *rng) *Plan {
	kind := r.w("seq", 30, "conc", 70)
	b := newBuilder("C12", kind, r)
	b.short = kind == "conc" && b.rng.p(20)
	b.cfg(b.backend(30, 45, 25))
	c := &b.p.Cfg
	b.p.Opts["lin"], b.p.Opts["scribble"], b.p.Opts["keep"] = 1, 1, 1
	b.big = b.big || b.rng.p(60)
	if kind == "conc" {
		p := b.concurrent(mix{"put", 6, "get", 8, "del", 2, "keys", 1, "refresh", 3, "destroyt", 1, "destroy", 1, "recreate", 1}, 3, 4, 6)
		p.Opts["afterclose"] = 1
		if c.Backend == "bolt" {
			if b.rng.p(30) {
				b.insert(&p.Phases[0], Op{Op: "clear"})
			}
		}
		if b.rng.p(40) {
			b.insert(&p.Phases[0], Op{Op: "close"})
		}
		return p
	}
	c.Latency, c.Insts, c.MaxSize = 0, 1, 0
	b.seqSched()
	g := newSeq(b)
	g.jump = 20
	if b.rng.p(30) {
		b.lives(c)
	}
	m := mix{"create", 5, "put", 6, "get", 8, "del", 2, "refresh", 3, "destroyt", 1, "destroy", 1}
	for i := 0; i <= b.rng.n(2); i++ {
		g.fill(6+b.rng.n(16), m)
		g.probe(80)
		g.phase("close", nil)
	}
	return b.p
}

func genC13(r *rng) *Plan {
	b := newBuilder("C13", "conc", r)
	b.cfg(b.backend(60, 20, 20))
	c := &b.p.Cfg
	c.MaxSize, c.Latency = 0, 0
	b.sched()
	b.p.Sched.Stall, b.p.Sched.Freeze = 0, 0
	b.p.Opts["lin"] = 1
	b.p.Opts["signers"] = pick(b.rng, 1, 1, 2, 3)
	b.p.Opts["signer0"] = b.rng.n(len(signers))
	b.p.Opts["uuidgran"] = pick(b.rng, 0, 100, 1000, int(ms), int(time.Second), int(time.Hour))
	b.keys = []string{"a", "b"}
	ids := []string{"u1", "u2", "", "u1.x", "ü\x00", "1", "11"}
	ids = ids[:2+b.rng.n(len(ids)-1)]
	ph := Phase{End: "close"}
	op := func(kind string) Op {
		o := Op{Op: kind, N: b.rng.n(1000)}
		switch kind {
		case "m.create":
			o.ID = Str(ids[b.rng.n(len(ids))])
			if o.ID == "" && c.Backend == "bolt" {
				o.ID = "u3"
			}
			o.Keys, o.Vals = b.kv(2)
		case "m.put":
			o.Keys, o.Vals = b.kv(2)
		case "m.get":
			o.Keys = []Str{Str(b.keys[b.rng.n(2)])}
			if b.rng.p(15) {
				o.R = "refresh"
			}
		case "m.check":
			if b.rng.p(25) {
				o.R = "refresh"
			}
		case "m.refresh":
			o.R = Str(pick(b.rng, "", "", "", "", "other", "other", "swapped", "access"))
		case "m.forge":
			o.R = Str(forgeries[b.rng.n(len(forgeries))])
			o.NR = Str(fmt.Sprint(b.rng.n(100000)))
		case "m.clock":
			o.N = pick(b.rng, -1, -1000, -3600000, 1000, -20)
		}
		if b.rng.p(10) {
			o.D = b.rng.dur(5 * ms)
		}
		return o
	}
	for i := 1 + b.rng.n(4); i > 0; i-- {
		ph.Setup = append(ph.Setup, op("m.create"))
	}
	m := mix{"m.create", 4, "m.put", 2, "m.get", 2, "m.check", 2, "m.refresh", 5, "m.forge", 8, "m.destroyt", 1, "m.destroy", 1, "m.clock", 1, "m.method", 1}
	if b.rng.p(20) {
		m = mix{"m.create", 10, "m.refresh", 5, "m.clock", 2}
	}
	clients := 1 + b.rng.n(4)
	for i := 0; i < clients; i++ {
		var ops []Op
		for n := 2 + b.rng.n(7); n > 0; n-- {
			ops = append(ops, op(b.rng.w(m...)))
		}
		ph.Clients = append(ph.Clients, ops)
	}
	if b.rng.p(4) { // few bits of a token tell those apart that one clock reading gives
		left := pick(b.rng, 150, 150, 300, 300, 300, 600, 600, 1500, 5000)
		b.p.Opts["maxsteps"] = 400000 + 400*left
		b.p.Sched.MeanGap = max(b.p.Sched.MeanGap, left/10)
		for i := range ph.Clients {
			n := left
			if i+1 < len(ph.Clients) {
				n = b.rng.n(left)
			}
			o := op("m.create")
			at := b.rng.n(len(ph.Clients[i]) + 1)
			ph.Clients[i] = slices.Insert(ph.Clients[i], at, Op{Op: "m.mint", ID: o.ID, N: o.N, D: o.D, Inst: n})
			left -= n
		}
	}
	for i := 0; i < 12; i++ {
		ph.Final = append(ph.Final, Op{Op: "m.get", N: -1 - i, Keys: []Str{Str(b.keys[b.rng.n(2)])}, Inst: 1 + b.rng.n(3)})
		if b.rng.p(30) {
			o := op("m.forge")
			o.N = i
			ph.Final = append(ph.Final, o)
		}
	}
	b.p.Phases = []Phase{ph}
	return b.p
}

func genC11(r *rng) *Plan {
	b := newBuilder("C11", "seq", r)
	b.cfg(b.backend(60, 20, 20))
	c := &b.p.Cfg
	c.MaxSize, c.Latency, c.Insts = 0, 0, 1
	b.seqSched()
	b.p.Opts["coder"] = pick(b.rng, 0, 0, 1, 1, 2)
	toks := []tok{}
	var ops []Op
	for i := 1 + b.rng.n(2); i > 0; i-- {
		t := b.newTok("u1", i)
		toks = append(toks, t)
		o := Op{Op: "create", T: Str(t.a), R: Str(t.r)}
		if b.rng.p(40) {
			k := b.someKeys(2)
			o.Keys = k
			for range k {
				o.Vals = append(o.Vals, Str(b.encoded()))
			}
		}
		ops = append(ops, o)
	}
	dying := b.rng.p(25)
	if dying {
		c.Access, c.Refresh = Dur(time.Second), Dur(2*time.Second)
	}
	kinds := valueKinds
	if b.rng.p(60) { // few kinds, so that compatible ones meet
		kinds = pick(b.rng, []string{"A", "B", "ptr"}, []string{"int", "my", "int64", "f64"}, []string{"str", "bytes", "strs"}, []string{"strs", "ints", "arr"}, []string{"map", "A"})
	}
	long := pick(b.rng, 0, 0, 20, 50)
	val := func() Str {
		n := 1 + b.rng.n(40)
		if b.rng.p(long) {
			n += pick(b.rng, 500, 1000, 1000)
		}
		return Str(fmt.Sprintf("%s:%d", kinds[b.rng.n(len(kinds))], n))
	}
	target := func() Str {
		k := kinds[b.rng.n(len(kinds))]
		if b.rng.p(15) {
			k = targetKinds[b.rng.n(len(targetKinds))]
		}
		if k == "bad" || k == "ptr" {
			k = "A"
		}
		return Str(fmt.Sprintf("%s:%d", k, b.rng.n(2)*b.rng.n(40)))
	}
	mgr, made := b.rng.p(40), map[string]bool{}
	if mgr { // sessions that a manager makes
		for i := b.rng.n(2); i < 2; i++ {
			toks = append(toks, tok{a: fmt.Sprintf("#%d", i)})
		}
	}
	for n := 6 + b.rng.n(25); n > 0; n-- {
		t := toks[b.rng.n(len(toks))]
		o := Op{T: Str(t.a), N: b.rng.n(2)}
		if b.rng.p(70) {
			o.N = 0
		}
		o.Op = b.rng.w("h.put", 6, "h.get", 12, "h.del", 3, "h.prep", 3, "h.keys", 1, "h.check", 1, "destroyt", 1)
		if t.id == "" { // the manager's
			switch {
			case !made[t.a] || b.rng.p(7):
				o.Op, o.ID = "h.create", Str(pick(b.rng, "u1", "u2", "m"))
				made[t.a] = true
			case b.rng.p(10):
				o.Op = pick(b.rng, "h.mrefresh", "h.mrefresh", "h.mdestroy", "h.mdestroyt")
			case o.Op == "destroyt":
				o.Op = "h.destroy"
			}
		}
		switch o.Op {
		case "h.put", "h.create":
			for k := b.rng.n(4); k > 0; k-- {
				o.Keys = append(o.Keys, Str(b.keys[b.rng.n(len(b.keys))]))
				o.Vals = append(o.Vals, val())
			}
		case "h.get":
			o.Keys = []Str{Str(b.keys[b.rng.n(len(b.keys))])}
			o.Vals = []Str{target()}
		case "h.del":
			o.Keys = b.someKeys(2)
			if b.rng.p(15) {
				o.Keys = nil
			}
			if b.rng.p(20) {
				o.NT = Str(toks[b.rng.n(len(toks))].a)
			}
		case "h.prep":
			o.Keys = b.someKeys(3)
		case "destroyt":
			if !b.rng.p(20) {
				o.Op = "h.destroy"
				if !b.rng.p(20) {
					continue
				}
			}
		}
		if strings.HasPrefix(o.Op, "h.") {
			if b.rng.p(15) {
				o.R = Str(pick(b.rng, "before", "after", "short"))
			}
		}
		if dying && b.rng.p(20) {
			o.D = b.rng.dur(time.Second)
		}
		ops = append(ops, o)
	}
	b.p.Phases = []Phase{{End: "close", Setup: ops}}
	return b.p
}

func (b *builder) encoded() string {
	c := coderOf(b.p.Opts["coder"])
	v := valueKinds[b.rng.n(4)]
	x, e := c.Encode(mkValue(fmt.Sprintf("%s:%d", v, b.rng.n(40))))
	if e != nil || b.rng.p(10) {
		return "neither of them"
	}
	return string(x)
}

func genC14(r *rng) *Plan {
	kind := r.w("seq", 80, "closed", 20)
	b := newBuilder("C14", kind, r)
	b.cfg(b.backend(34, 33, 33))
	c := &b.p.Cfg
	c.MaxSize, c.Latency, c.Insts = pick(b.rng, 0, -1), 0, 1
	b.lives(c)
	if b.rng.p(5) {
		c.Access, c.Refresh = 0, 0
	}
	b.seqSched()
	g := newSeq(b)
	if b.rng.p(40) {
		g.nastyNames()
	}
	g.jump = pick(b.rng, 5, 40, 60)
	m := mix{"create", 5, "put", 5, "get", 4, "del", 3, "keys", 3, "check", 2, "refresh", 5, "destroyt", 2, "destroy", 2, "badrefresh", 3, "malformed", 3}
	b.p.Opts["lin"] = 1
	g.fill(8+b.rng.n(24), m)
	if kind == "closed" {
		g.emit(Op{Op: "close"})
		g.fill(3+b.rng.n(8), m)
		if b.rng.p(50) {
			g.emit(Op{Op: "close"})
		}
		g.probe(30)
	} else {
		g.probe(100)
	}
	g.phase("close", nil)
	return b.p
}

func genC15(r *rng) *Plan {
	kind := r.w("seq", 85, "conc", 15)
	b := newBuilder("C15", kind, r)
	backend := b.backend(0, 60, 40)
	b.cfg(backend)
	c := &b.p.Cfg
	c.Latency, c.Insts, c.MaxSize = 0, 1, 0
	b.p.Opts["lin"] = 1
	m := mix{"create", 5, "put", 4, "get", 2, "del", 2, "keys", 1, "check", 1, "refresh", 4, "destroyt", 1, "destroy", 1, "badrefresh", 1}
	if kind == "conc" {
		b.sched()
		for i := 0; i <= 1+b.rng.n(2); i++ {
			ph := Phase{End: "close"}
			b.workload(&ph, 1+b.rng.n(2), 2+b.rng.n(2), 3, mix{"put", 3, "get", 2, "del", 1, "refresh", 3, "destroyt", 1, "destroy", 1, "recreate", 1})
			cfg := *c
			cfg.WithDB = b.rng.p(40)
			ph.Cfg = &cfg
			b.p.Phases = append(b.p.Phases, ph)
		}
		last := Phase{End: "close"}
		b.readback(&last)
		b.p.Phases = append(b.p.Phases, last)
		return b.p
	}
	capped := backend == "bolt" && b.rng.p(50)
	b.lives(c)
	if backend == "redis" {
		c.Coder = b.rng.n(2)
		c.Skew = pick(b.rng, 0, 0, Dur(time.Minute))
	}
	if capped {
		c.MaxSize = 2 + b.rng.n(4)
		b.p.Opts["cap"] = 1
	}
	b.seqSched()
	g := newSeq(b)
	g.ids = []string{"u1", "u2", "u3"}[:1+b.rng.n(3)]
	g.jump = 30
	n := 2 + b.rng.n(3)
	for i := 0; i < n; i++ {
		cfg := *c
		if i > 0 {
			if capped {
				cfg.MaxSize = 1 + b.rng.n(5)
				if b.rng.p(20) {
					cfg.MaxSize = 0
				}
			} else if b.rng.p(60) {
				b.lives(&cfg)
			}
			cfg.WithDB = b.rng.p(40)
			cfg.Batch = pick(b.rng, -1, 0, 1, 128)
			cfg.Clear = pick(b.rng, 0, cfg.Clear, Dur(time.Minute))
		}
		g.cfg = &cfg
		if i > 0 {
			g.probe(70)
		}
		g.fill(2+b.rng.n(12), m)
		if i == n-1 {
			g.probe(100)
		}
		g.phase("close", &cfg)
		if b.rng.p(60) {
			g.jump = 100
			g.advance()
			g.jump = 30
		}
		g.origin = g.now
	}
	return b.p
}

// genC16 uses the concurrent workloads of the other properties under the race
// detector.
func genC16(r *rng) *Plan {
	var p *Plan
	src := pick(r, "C01", "C02", "C04", "C04", "C08", "C09", "C09", "C12", "C13", "C13", "C15", "C10", "C05", "C07")
	for n := 0; p == nil || p.Kind == "seq" || p.Kind == "crash" || p.Kind == "restart" || p.Kind == "order"; n++ {
		p = gens16[src](r)
	}
	p.Prop, p.Kind = "C16", src+"-"+p.Kind
	// the harness does not look into the provider's memory
	delete(p.Opts, "allgone")
	delete(p.Opts, "lin")
	return p
}

var gens16 = map[string]func(*rng) *Plan{"C01": genC01, "C02": genC02, "C04": genC04, "C05": genC05, "C07": genC07, "C08": genC08, "C09": genC09, "C10": genC10, "C12": genC12, "C13": genC13, "C15": genC15}
