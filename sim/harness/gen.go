package harness

import (
	"fmt"
	"strings"
	"time"
)

// rng generates plans; it is separate from the scheduler's decisions.
type rng struct{ s uint64 }

func (r *rng) u64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *rng) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.u64() % uint64(n))
}
func (r *rng) p(pc int) bool             { return r.n(100) < pc }
func (r *rng) dur(max time.Duration) Dur { return Dur(r.u64() % uint64(max+1)) }
func pick[T any](r *rng, xs ...T) T      { return xs[r.n(len(xs))] }

// weighted choice
func (r *rng) w(ws ...interface{}) string {
	tot := 0
	for i := 1; i < len(ws); i += 2 {
		tot += ws[i].(int)
	}
	x := r.n(tot)
	for i := 0; i < len(ws); i += 2 {
		x -= ws[i+1].(int)
		if x < 0 {
			return ws[i].(string)
		}
	}
	return ws[0].(string)
}

// tok is a token pair that occurs in a plan.
type tok struct{ id, a, r string }

type builder struct {
	*rng
	p        *Plan
	pool     [][]tok // by lineage
	n        int
	val      int
	keys     []string
	short    bool // lifetimes shorter than the run
	big      bool // values larger than a page
	nastyVal bool
	wide     bool // sessions with many keys
	bulk     int  // additional sessions
	sharedDB bool // several providers may share one open database
}

const (
	ms = time.Millisecond
	hr = time.Hour
)

func (b *builder) value() Str {
	b.val++
	v := fmt.Sprintf("v%d", b.val)
	if b.rng.p(6) {
		return ""
	}
	if b.nastyVal && b.rng.p(30) {
		x := nastyVals[b.rng.n(len(nastyVals))]
		return Str(pick(b.rng, x+v, x+v+x, v+x, x))
	}
	if b.big && b.rng.p(30) {
		n := pick(b.rng, 100, 1000, 1500, 5000, 20000, 65400) + b.rng.n(200)
		return Str(strings.Repeat(v, n/len(v)+1))
	}
	return Str(v)
}

func (b *builder) newTok(id string, lin int) tok {
	b.n++
	t := tok{id, fmt.Sprintf("%s.s%d.x%d", id, lin, b.n), fmt.Sprintf("%s.r%d.y%d", id, lin, b.n)}
	for len(b.pool) <= lin {
		b.pool = append(b.pool, nil)
	}
	b.pool[lin] = append(b.pool[lin], t)
	return t
}

func (b *builder) someKeys(max int) []Str {
	n := 1 + b.n2(max)
	if b.wide && b.rng.p(40) {
		n = 1 + b.n2(len(b.keys))
	}
	var ks []Str
	for i := 0; i < n; i++ {
		ks = append(ks, Str(b.keys[b.rng.n(len(b.keys))]))
	}
	return ks
}
func (b *builder) n2(n int) int { return b.rng.n(n) }

func (b *builder) kv(max int) (ks, vs []Str) {
	if b.rng.n(12) == 0 {
		return nil, nil
	}
	seen := map[Str]bool{}
	for _, k := range b.someKeys(max) {
		if seen[k] && (b.wide || !b.rng.p(10)) {
			continue
		}
		seen[k] = true
		ks = append(ks, k)
		vs = append(vs, b.value())
	}
	return
}

func (b *builder) create(lin int, id string) Op {
	t := b.newTok(id, lin)
	ks, vs := b.kv(3)
	return Op{Op: "create", T: Str(t.a), R: Str(t.r), Keys: ks, Vals: vs}
}

// near is another text that differs from s, a token or an id, in little.
func near(r *rng, s string) string {
	id, rest, tok := strings.Cut(s, ".")
	if !tok {
		id, rest = "", s
	} else {
		id += "."
	}
	switch up, low := strings.ToUpper(rest), strings.ToLower(rest); r.n(8) {
	case 0:
		if up != rest {
			return id + up
		}
		return id + low
	case 1, 2:
		if n := len(rest) - 1; n > 0 && rest[n] != '.' && rest[n-1] != '.' {
			return id + rest[:n]
		}
		return id + rest + "0"
	case 3:
		return id + rest + pick(r, "0", "1", "a", "=")
	case 4:
		return id + rest + pick(r, " ", "\n", "\x00")
	case 5:
		if tok {
			return id + " " + rest
		}
		return " " + rest
	case 6:
		if n := len(rest) - 1; n > 0 && rest[n] != '.' {
			return id + rest[:n] + string(rune(rest[n]^1))
		}
	}
	if tok && rest != "" {
		return id + rest[:1] + rest
	}
	return s + s
}

// op makes an operation of the given kind on lineage lin.
func (b *builder) op(kind string, lin int) Op {
	o := b.exact(kind, lin)
	if o.Op != "create" && b.rng.p(3) {
		if o.Op == "destroy" {
			o.ID = Str(near(b.rng, string(o.ID)))
		} else if o.T != "" {
			o.T = Str(near(b.rng, string(o.T)))
		}
	}
	return o
}

func (b *builder) exact(kind string, lin int) Op {
	ts := b.pool[lin]
	t := ts[b.rng.n(len(ts))]
	if b.rng.p(30) {
		t = ts[0]
	}
	switch kind {
	case "put":
		ks, vs := b.kv(3)
		return Op{Op: "put", T: Str(t.a), Keys: ks, Vals: vs}
	case "get":
		return Op{Op: "get", T: Str(t.a), Keys: b.someKeys(3)}
	case "del":
		return Op{Op: "del", T: Str(t.a), Keys: b.someKeys(2)}
	case "destroy":
		return Op{Op: "destroy", ID: Str(t.id)}
	case "recreate": // the token is used again
		ks, vs := b.kv(3)
		return Op{Op: "create", T: Str(t.a), R: Str(t.r), Keys: ks, Vals: vs}
	case "refresh":
		nt := b.newTok(t.id, lin)
		return Op{Op: "refresh", T: Str(t.a), R: Str(t.r), NT: Str(nt.a), NR: Str(nt.r)}
	case "badrefresh":
		nt := b.newTok(t.id, lin)
		r := t.a
		if b.rng.p(50) {
			r = ts[b.rng.n(len(ts))].r
		}
		if b.rng.p(20) {
			r = "other" + t.r
		} else if b.rng.p(40) {
			r = near(b.rng, t.r)
		}
		return Op{Op: "refresh", T: Str(t.a), R: Str(r), NT: Str(nt.a), NR: Str(nt.r)}
	}
	return Op{Op: kind, T: Str(t.a)}
}

func (b *builder) sched() {
	s := &b.p.Sched
	s.MeanGap = pick(b.rng, 2, 4, 8, 20, 60, 200)
	s.PCT = b.rng.p(30)
	if b.short || b.rng.p(20) {
		s.Stall = pick(b.rng, 0, 3, 10, 40)
		s.Freeze = pick(b.rng, 0, 0, 5, 20)
		s.MaxStall = pick(b.rng, Dur(10*ms), Dur(200*ms), Dur(time.Second))
	}
}

func (b *builder) cfg(backend string) {
	c := &b.p.Cfg
	c.Backend = backend
	c.Access, c.Refresh = Dur(1*hr), Dur(24*hr)
	c.MaxSize = pick(b.rng, -1, 0, 1000)
	c.Batch = pick(b.rng, -1, 0, 1, 2, 128)
	c.Clear = pick(b.rng, Dur(0), Dur(10*time.Minute), Dur(50*ms))
	if b.short {
		c.Access = Dur(50*ms) + b.rng.dur(500*ms)
		c.Refresh = c.Access + b.rng.dur(700*ms)
		c.Clear = pick(b.rng, Dur(0), Dur(20*ms), Dur(130*ms), Dur(500*ms))
	}
	c.Omit = b.rng.p(25) || b.p.Opts["decoy"] == 1 && b.rng.p(60)
	c.Insts = 1
	c.PageSize = pick(b.rng, 1024, 4096)
	c.Spaces = []Str{"s."}
	c.Retries = -1
	switch backend {
	case "redis":
		c.Insts = pick(b.rng, 1, 2, 3)
		c.Latency = pick(b.rng, Dur(0), Dur(0), Dur(2*ms))
		if b.rng.p(20) {
			c.MetaKey = "meta"
		}
		c.URL = b.rng.p(25)
		c.Both = b.rng.p(15)
		if b.short && b.rng.p(30) { // dead sessions linger
			c.Drift = pick(b.rng, 50, 300, 500)
		}
	case "bolt":
		c.WithDB = b.rng.p(30)
		c.Both = b.rng.p(30)
		if c.WithDB && b.sharedDB && b.rng.p(60) {
			c.Insts = 2
		}
	}
}

func newBuilder(prop, kind string, r *rng) *builder {
	b := &builder{rng: r, p: &Plan{Prop: prop, Kind: kind, Opts: map[string]int{}}}
	b.keys = []string{"a", "b", "c"}
	if b.rng.p(5) {
		b.p.Opts["decoy"] = 1
	}
	b.nastyVal = b.rng.p(10)
	switch b.rng.n(25) {
	case 0, 1:
		b.big = true
	case 2:
		b.many(pick(b.rng, 20, 60, 150, 300))
	case 3:
		b.bulk = pick(b.rng, 10, 20, 40, 80, 150)
		if b.rng.p(10) {
			b.bulk = 270 + b.rng.n(60)
		} else if b.rng.p(1) {
			b.bulk = 530 + b.rng.n(430) // below the default limit
		}
		b.p.Opts["maxsteps"] = 3000000
	}
	return b
}

// many gives the sessions up to n keys.
func (b *builder) many(n int) {
	b.wide = true
	for i := 0; i < n; i++ {
		b.keys = append(b.keys, fmt.Sprintf("k%03d", i*7919%1000))
	}
}

func (b *builder) allKeys() []Str {
	var ks []Str
	for _, k := range b.keys {
		ks = append(ks, Str(k))
	}
	return ks
}

func (b *builder) backend(pcMem, pcBolt, pcRedis int) string {
	return b.rng.w("memory", pcMem, "bolt", pcBolt, "redis", pcRedis)
}

// mix lists operation kinds with weights.
type mix []interface{}

// workload fills clients with concurrent operations on lins sessions.
func (b *builder) workload(ph *Phase, lins, clients, ops int, m mix) {
	ids := []string{"u1", "u2"}
	if b.bulk > 0 && len(b.pool) == 0 {
		id, other := ids[b.rng.n(2)], pick(b.rng, 2, 20)
		for i := 0; i < b.bulk; i++ {
			if b.rng.p(other) {
				id = ids[b.rng.n(2)]
			}
			ph.Setup = append(ph.Setup, b.create(i, id))
		}
	}
	base := len(b.pool)
	for i := 0; i < lins; i++ {
		lin := base + i
		id := ids[b.rng.n(len(ids))]
		c := b.create(lin, id)
		if b.rng.p(80) {
			ph.Setup = append(ph.Setup, c)
		} else {
			ph.Clients = append(ph.Clients, []Op{c})
		}
	}
	for len(ph.Clients) < clients {
		ph.Clients = append(ph.Clients, nil)
	}
	total := b.rng.n(clients*ops-1) + 2
	for i := 0; i < total; i++ {
		c := b.rng.n(len(ph.Clients))
		lin := b.rng.n(len(b.pool))
		if b.rng.p(70) {
			lin = base + b.rng.n(lins)
		}
		o := b.op(b.rng.w(m...), lin)
		if b.short {
			if b.rng.p(60) {
				o.D = b.rng.dur(time.Duration(b.p.Cfg.Refresh))
			}
		} else if b.rng.p(5) {
			o.D = b.rng.dur(20 * ms)
		}
		ph.Clients[c] = append(ph.Clients[c], o)
	}
}

// readback asks for everything the run may have left.
func (b *builder) readback(ph *Phase) {
	for lin := range b.pool {
		for _, t := range b.pool[lin] {
			ph.Final = append(ph.Final, Op{Op: "get", T: Str(t.a), Keys: b.allKeys()})
			if b.rng.p(30) {
				ph.Final = append(ph.Final, Op{Op: "keys", T: Str(t.a)})
			}
		}
	}
	for i := range ph.Final {
		ph.Final[i].Inst = 1 + b.rng.n(3)
	}
}

// probes finds out which sessions exist without changing them.
func (b *builder) probes(ph *Phase) {
	for lin := range b.pool {
		for _, t := range b.pool[lin] {
			o := Op{Op: "check", T: Str(t.a)}
			if b.rng.p(40) {
				o = Op{Op: "refresh", T: Str(t.a), R: "wrong", NT: Str(t.a), NR: Str(t.r)}
				o.R = Str(t.id + ".wrong.refresh")
			}
			o.Inst = 1 + b.rng.n(3)
			ph.Final = append(ph.Final, o)
		}
	}
}

func (b *builder) netFaults() {
	n := &b.p.Faults.Net
	rate := pick(b.rng, 10, 40, 120)
	any := false
	for !any {
		for _, f := range []*int{&n.Reset, &n.Lost, &n.DelayReply, &n.Partial, &n.Err, &n.Dial} {
			if b.rng.p(40) {
				*f = rate
				any = true
			}
		}
	}
	n.MaxDelay = Dur(time.Second)
	if b.rng.p(40) {
		n.Delay = rate
		n.MaxDelay = pick(b.rng, Dur(time.Second), Dur(5*time.Second))
	}
	if b.rng.p(25) {
		n.Restarts = 1 + b.rng.n(2)
	}
	if b.rng.p(25) {
		n.Crash = pick(b.rng, 3, 10)
	}
	b.p.Cfg.Retries = -1
	b.p.Cfg.Insts = pick(b.rng, 1, 1, 2)
}

// maxTurns is the most scheduling turns after which a context is cancelled; an
// Op whose Ctx is -n with n up to it means turns, else simulated time.
const maxTurns = 1000

// contexts gives some operations a context that ends.
func (b *builder) contexts(ph *Phase) {
	rate := pick(b.rng, 10, 30, 70)
	for _, ops := range ph.Clients {
		for i := range ops {
			if !b.rng.p(rate) {
				continue
			}
			d := pick(b.rng, Dur(1), Dur(ms), Dur(10*ms), Dur(100*ms), Dur(time.Second)) + b.rng.dur(3*ms)
			switch {
			case b.rng.p(30) || b.p.Cfg.Backend == "memory":
				d = -Dur(1 + b.rng.n(pick(b.rng, 8, 20, 50, maxTurns)))
			case b.rng.p(40):
				d = -d - maxTurns
			}
			ops[i].Ctx = d
		}
	}
	if b.p.Cfg.Backend == "redis" && b.rng.p(50) && b.p.Cfg.Latency == 0 {
		b.p.Cfg.Latency = pick(b.rng, Dur(ms), Dur(10*ms))
	}
}

func (b *builder) diskFaults() {
	d := &b.p.Faults.Disk
	rate := pick(b.rng, 20, 80, 200)
	any := false
	for !any {
		for _, f := range []*int{&d.Write, &d.Short, &d.Sync, &d.Trunc} {
			if b.rng.p(45) {
				*f = rate
				any = true
			}
		}
	}
}

func (b *builder) crashFaults() {
	d := &b.p.Faults.Disk
	d.PowerLoss = b.rng.p(70)
	if b.rng.p(70) {
		d.Crash = pick(b.rng, 5, 15, 40, 100)
	} else {
		b.p.Opts["killmid"] = 1
	}
	if b.rng.p(30) {
		b.p.Opts["crashopen"] = 1
	}
}

// concurrent makes a history on one backend.
func (b *builder) concurrent(m mix, lins, clients, ops int) *Plan {
	b.sched()
	ph := Phase{End: "close"}
	b.workload(&ph, 1+b.rng.n(lins), 2+b.rng.n(clients-1), ops, m)
	ph.Settle = Dur(2 * time.Second)
	b.readback(&ph)
	if b.short {
		b.probes(&ph)
	}
	b.p.Phases = []Phase{ph}
	b.p.Opts["lin"] = 1
	return b.p
}

// crashes makes a bolt history of several process lives.
func (b *builder) crashes(m mix, lins, clients, ops int) *Plan {
	b.sched()
	b.crashFaults()
	n := 1 + b.rng.n(3)
	for i := 0; i < n; i++ {
		ph := Phase{End: pick(b.rng, "kill", "kill", "close")}
		b.workload(&ph, 1+b.rng.n(lins), 1+b.rng.n(clients), ops, m)
		if b.rng.p(50) {
			b.readback(&ph)
		}
		b.p.Phases = append(b.p.Phases, ph)
	}
	last := Phase{End: "close"}
	b.readback(&last)
	b.p.Phases = append(b.p.Phases, last)
	b.p.Opts["lin"] = 1
	return b.p
}

// emptied adds to the last phase that every session is destroyed and the
// database then holds what a fresh one does: a session that is not in its id's
// index, an index entry of no session or a wrong count shows.
func (b *builder) emptied() {
	ph := &b.p.Phases[len(b.p.Phases)-1]
	c := b.p.Cfg
	if ph.Cfg != nil {
		c = *ph.Cfg
	}
	c.WithDB = true
	c.Clear = 0
	ph.Cfg = &c
	for _, id := range []Str{"u1", "u2"} {
		ph.Final = append(ph.Final, Op{Op: "destroy", ID: id})
	}
	ph.Final = append(ph.Final, Op{Op: "residue", N: 1})
}

// faulty makes a history with storage or network faults.
func (b *builder) faulty(m mix, lins, clients, ops int) *Plan {
	b.sched()
	if b.p.Cfg.Backend == "redis" {
		b.netFaults()
	} else if b.p.Cfg.Backend == "bolt" && !b.rng.p(8) {
		b.diskFaults()
	}
	ph := Phase{End: "close", Settle: Dur(7 * time.Second)}
	b.workload(&ph, 1+b.rng.n(lins), 1+b.rng.n(clients), ops, m)
	if b.p.Cfg.Backend == "redis" && b.rng.p(40) || b.rng.p(5) || !b.p.anyFaults() {
		b.contexts(&ph)
	}
	b.readback(&ph)
	// it works again
	id := "u1"
	lin := len(b.pool)
	ph.Final = append(ph.Final, b.create(lin, id), b.op("put", lin), b.op("get", lin), b.op("refresh", lin))
	ph.Final = append(ph.Final, b.op("get", lin), b.op("del", lin), b.op("destroy", lin), b.op("check", lin))
	b.p.Phases = []Phase{ph}
	if b.p.Faults.Net.Crash > 0 || b.rng.p(20) {
		last := Phase{End: "close"}
		b.readback(&last)
		b.p.Phases = append(b.p.Phases, last)
	}
	if b.p.Cfg.Backend == "bolt" && b.rng.p(35) {
		b.p.Opts["faultopen"] = 1 + b.rng.n(3)
	}
	b.p.Opts["lin"] = 1
	return b.p
}

// Gen makes the plan of one run.
func Gen(prop string, seed uint64) *Plan {
	r := &rng{seed}
	r.u64()
	g := gens[prop]
	if g == nil {
		return nil
	}
	p := g(r)
	switch prop {
	case "C05", "C11", "C13":
	default:
		p.rename(r)
	}
	p.surroundings(r)
	switch prop {
	case "C11", "C12", "C13", "C14":
	default:
		if r.p(15) && p.throughable() {
			p.Opts["mgr"] = 1
		}
	}
	return p
}

var gens = map[string]func(*rng) *Plan{
	"C01": genC01, "C02": genC02, "C03": genC03, "C04": genC04, "C05": genC05, "C06": genC06, "C07": genC07, "C08": genC08,
	"C09": genC09, "C10": genC10, "C11": genC11, "C12": genC12, "C13": genC13, "C14": genC14, "C15": genC15, "C16": genC16,
}

func genC01(r *rng) *Plan {
	m := mix{"destroy", 3, "destroyt", 4, "put", 5, "refresh", 4, "check", 2, "get", 2, "del", 1, "keys", 1, "recreate", 1}
	kind := r.w("conc", 55, "timed", 10, "crash", 15, "fault", 15, "chase", 5)
	b := newBuilder("C01", kind, r)
	b.p.Opts["status"] = 1
	switch kind {
	case "crash":
		b.cfg("bolt")
		return b.crashes(m, 2, 3, 5)
	case "fault":
		b.cfg(r.w("redis", 70, "bolt", 30))
		return b.faulty(m, 2, 3, 5)
	case "timed":
		b.short = true
	}
	if kind == "chase" {
		b.bulk = 0
		b.cfg(b.backend(10, 10, 80))
		return b.chase()
	}
	b.sharedDB = true
	b.cfg(b.backend(25, 30, 45))
	return b.concurrent(m, 2, 3, 5)
}

// chase makes a history in which sessions are refreshed over and over while
// their id is destroyed.
func (b *builder) chase() *Plan {
	b.sched()
	b.p.Sched.Stall, b.p.Sched.Freeze = 0, 0
	ph := Phase{End: "close"}
	lins := 1 + b.rng.n(2)
	for i := 0; i < lins; i++ {
		ph.Setup = append(ph.Setup, b.create(i, "u1"))
		var ops []Op
		for j := 2 + b.rng.n(7); j > 0; j-- {
			ts := b.pool[i]
			t := ts[len(ts)-1]
			nt := b.newTok(t.id, i)
			ops = append(ops, Op{Op: "refresh", T: Str(t.a), R: Str(t.r), NT: Str(nt.a), NR: Str(nt.r)})
		}
		ph.Clients = append(ph.Clients, ops)
	}
	var ops []Op
	for j := 1 + b.rng.n(2); j > 0; j-- {
		o := Op{Op: "destroy", ID: "u1"}
		if b.rng.p(50) {
			o.D = b.rng.dur(20 * ms)
		}
		ops = append(ops, o)
	}
	ph.Clients = append(ph.Clients, ops)
	ph.Settle = Dur(2 * time.Second)
	b.readback(&ph)
	b.p.Phases = []Phase{ph}
	b.p.Opts["lin"] = 1
	return b.p
}

func genC02(r *rng) *Plan {
	m := mix{"refresh", 8, "badrefresh", 2, "put", 4, "get", 3, "destroyt", 1, "keys", 1, "check", 1, "recreate", 1}
	kind := r.w("conc", 55, "timed", 15, "crash", 15, "fault", 15)
	b := newBuilder("C02", kind, r)
	switch kind {
	case "crash":
		b.cfg("bolt")
		return b.crashes(m, 2, 3, 4)
	case "fault":
		b.cfg(r.w("redis", 70, "bolt", 30))
		return b.faulty(m, 2, 3, 4)
	case "timed":
		b.short = true
	}
	b.sharedDB = true
	b.cfg(b.backend(25, 30, 45))
	return b.concurrent(m, 2, 3, 4)
}

func genC04(r *rng) *Plan {
	m := mix{"put", 6, "get", 6, "del", 3, "keys", 3, "check", 1, "refresh", 2, "destroyt", 1, "destroy", 1, "badrefresh", 1, "recreate", 1}
	kind := r.w("conc", 85, "timed", 15)
	b := newBuilder("C04", kind, r)
	b.short = kind == "timed"
	b.sharedDB = true
	b.cfg(b.backend(30, 30, 40))
	return b.concurrent(m, 2, 4, 6)
}

func genC06(r *rng) *Plan {
	m := mix{"put", 6, "get", 2, "del", 3, "keys", 1, "refresh", 4, "destroyt", 2, "destroy", 2, "recreate", 1}
	b := newBuilder("C06", "crash", r)
	b.short = r.p(15)
	b.cfg("bolt")
	if r.p(40) {
		m = append(m, "clear", 1)
	}
	p := b.crashes(m, 3, 3, 6)
	if r.p(70) {
		b.emptied()
	}
	p.Opts["whole"] = 1 // a destroy or clear that a crash interrupts is all or nothing
	return p
}

func genC10(r *rng) *Plan {
	m := mix{"put", 6, "get", 4, "del", 3, "keys", 2, "refresh", 4, "destroyt", 2, "destroy", 2, "check", 1, "recreate", 1}
	b := newBuilder("C10", "fault", r)
	b.short = r.p(10)
	b.cfg(r.w("redis", 52, "bolt", 38, "memory", 10))
	if b.p.Cfg.Backend == "bolt" {
		b.p.Opts["whole"] = 1
		if r.p(8) {
			b.keys = append(b.keys, "") // which is refused
		}
		if r.p(30) {
			m = append(m, "clear", 1)
		}
	}
	return b.faulty(m, 3, 3, 6)
}
