package harness

import (
	"context"
	"crypto/rand"
	"errors"
	"fmt"
	"os"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/boltdb/bolt"
	"github.com/go-redis/redis/v8"
	"github.com/google/uuid"
	"github.com/powerpuffpenguin/sessionid"
	pbolt "github.com/powerpuffpenguin/sessionid/provider/bolt"
	predis "github.com/powerpuffpenguin/sessionid/provider/redis"

	"verifsim/fakeredis"
	"verifsim/simdisk"
	"verifsim/simredis"
	"verifsim/simrt"
)

const dbPath = "/sim/session.db"

// inst is one provider instance.
type inst struct {
	idx     int
	cfg     *Cfg
	space   string
	node    *simrt.Node
	prov    sessionid.Provider
	mem     *sessionid.MemoryProvider
	bolt    *pbolt.Provider
	db      *bolt.DB // handed over with WithDB
	client  *redis.Client
	closing int64 // when Close was first called
	closed  int64 // sequence number at which a Close returned success
}

// world is the system under test and its environment during one run.
type world struct {
	k       *simrt.Kernel
	p       *Plan
	fs      *simdisk.FS
	srv     *fakeredis.Server
	sysn    *simrt.Node // harness
	hist    []*Rec
	viol    []Violation
	phase   int
	opened  time.Duration // when the current phase began
	insts   []*inst
	faulty  bool // faults are or were active since the last settling
	dead    bool // a process of this phase has crashed
	crash   int64
	died    time.Duration
	kept    []*kept // slices kept by C12
	trouble string
	fresh   map[*inst]int // index entries of a fresh memory provider
	foreign string

	watching   bool
	diskAfter  []string
	redisAfter []string

	mgr             *managers
	second, seconds int // attempts to open the file again: now, ever
	stack           *stack
	hnd             *handles
}

func (w *world) violate(class, format string, a ...interface{}) {
	for _, v := range w.viol {
		if v.Class == class {
			return
		}
	}
	w.viol = append(w.viol, Violation{Prop: w.p.Prop, Class: class, Msg: fmt.Sprintf(format, a...)})
	w.k.Tracef("VIOLATION %s: %s", class, fmt.Sprintf(format, a...))
}

func classify(e error) string {
	switch {
	case e == nil:
		return "ok"
	case errors.Is(e, sessionid.ErrTokenExpired):
		return "expired"
	case errors.Is(e, sessionid.ErrTokenNotExists):
		return "notexists"
	case errors.Is(e, sessionid.ErrRefreshTokenNotMatched):
		return "badrefresh"
	case errors.Is(e, sessionid.ErrTokenIDNotMatched):
		return "badid"
	case errors.Is(e, sessionid.ErrTokenInvalid):
		return "invalid"
	case errors.Is(e, sessionid.ErrProviderClosed):
		return "closed"
	}
	return "other"
}

func (c *Cfg) space(i int) string {
	if i < len(c.Spaces) {
		return string(c.Spaces[i])
	}
	if len(c.Spaces) > 0 {
		return string(c.Spaces[len(c.Spaces)-1])
	}
	return "s."
}

// give tells whether to pass an option.
func (c *Cfg) give(isDefault bool) bool { return !c.Omit || !isDefault }

// open starts a provider; it runs in a task on the node, which its background
// goroutines inherit.
func (w *world) open(in *inst, db *bolt.DB) error {
	c := in.cfg
	a, r, cl := time.Duration(c.Access), time.Duration(c.Refresh), time.Duration(c.Clear)
	rules := c.Rules
	if x, y := lives(rules); x != c.Access || y != c.Refresh { // changed by hand
		rules = nil
	}
	if len(rules) == 0 && c.give(a == time.Hour && r == 24*time.Hour) {
		rules = []Rule{{false, c.Access}, {true, c.Refresh}}
		if c.OptRev {
			slices.Reverse(rules)
		}
	}
	switch c.Backend {
	case "memory":
		var opts []sessionid.ProviderOption
		if c.give(c.MaxSize == -1) {
			opts = append(opts, sessionid.WithProviderMaxSize(c.MaxSize))
		}
		if c.give(c.Batch == 128) {
			opts = append(opts, sessionid.WithProviderCheckBatch(c.Batch))
		}
		if c.give(cl == 10*time.Minute) {
			opts = append(opts, sessionid.WithProviderClear(cl))
		}
		if c.OptRev {
			slices.Reverse(opts)
		}
		for _, x := range rules {
			if x.Refresh {
				opts = append(opts, sessionid.WithProviderRefresh(time.Duration(x.D)))
			} else {
				opts = append(opts, sessionid.WithProviderAccess(time.Duration(x.D)))
			}
		}
		in.mem = sessionid.NewProvider(opts...)
		in.prov = in.mem
		_, w.fresh[in] = memNames(in.mem)
	case "bolt":
		opts := []pbolt.Option{pbolt.WithBucket([]byte(in.space))}
		if c.give(c.MaxSize == -1) {
			opts = append(opts, pbolt.WithMaxSize(c.MaxSize))
		}
		if c.give(c.Batch == 128) {
			opts = append(opts, pbolt.WithCheckBatch(c.Batch))
		}
		if c.give(cl == 10*time.Minute) {
			opts = append(opts, pbolt.WithClear(cl))
		}
		if c.WithDB {
			opts = append(opts, pbolt.WithDB(db))
			in.db = db
			if c.Both { // the handle counts
				opts = append(opts, pbolt.WithFilename(dbPath+".other"), pbolt.WithTimeout(3*time.Second))
			}
		} else {
			opts = append(opts, pbolt.WithFilename(dbPath), pbolt.WithTimeout(3*time.Second))
		}
		if c.OptRev {
			slices.Reverse(opts)
		}
		for _, x := range rules {
			if x.Refresh {
				opts = append(opts, pbolt.WithRefresh(time.Duration(x.D)))
			} else {
				opts = append(opts, pbolt.WithAccess(time.Duration(x.D)))
			}
		}
		p, e := pbolt.New(opts...)
		if e != nil {
			return e
		}
		in.bolt = p
		in.prov = p
	case "redis":
		patience := time.Minute // nothing but injected delays may run into the timeout
		if w.p.Faults.Net.Delay > 0 {
			patience = 3 * time.Second
		}
		tune := func(o *redis.Options) {
			set := func(d *time.Duration, v time.Duration) {
				if *d == 0 {
					*d = v
				}
			}
			if o.PoolSize == 0 {
				o.PoolSize = 20
			}
			if o.MaxRetries == 0 {
				o.MaxRetries = c.Retries
			}
			set(&o.MinRetryBackoff, -1)
			set(&o.MaxRetryBackoff, -1)
			set(&o.IdleCheckFrequency, -1)
			set(&o.IdleTimeout, time.Second)
			set(&o.PoolTimeout, 20*time.Second)
			set(&o.DialTimeout, 5*time.Second)
			set(&o.ReadTimeout, patience)
			set(&o.WriteTimeout, patience)
		}
		opts := []predis.Option{predis.WithKeyPrefix(in.space)}
		if c.give(c.Batch == 128) {
			opts = append(opts, predis.WithCheckBatch(c.Batch))
		}
		if c.Both {
			opts = append(opts, predis.WithURL("redis://sim:6379/0"))
		}
		if !c.URL {
			o := &redis.Options{Addr: "sim:6379", Dialer: w.srv.Dial}
			tune(o)
			in.client = redis.NewClient(o)
			opts = append(opts, predis.WithClient(in.client))
		} else if !c.Both {
			opts = append(opts, predis.WithURL("redis://sim:6379"))
		}
		simredis.Dial, simredis.Tune = w.srv.Dial, tune
		simredis.Made = func(cl *redis.Client) { in.client = cl }
		if c.MetaKey != "" {
			opts = append(opts, predis.WithMetadataKey(string(c.MetaKey)))
		}
		if c.Coder == 1 {
			opts = append(opts, predis.WithCoder(sessionid.JSONCoder{}))
		}
		if c.OptRev {
			slices.Reverse(opts)
		}
		for _, x := range rules {
			if x.Refresh {
				opts = append(opts, predis.WithRefresh(time.Duration(x.D)))
			} else {
				opts = append(opts, predis.WithAccess(time.Duration(x.D)))
			}
		}
		p, e := predis.New(opts...)
		if e != nil {
			return e
		}
		in.prov = p
	default:
		panic("backend " + c.Backend)
	}
	if w.p.Opts["mgr"] == 1 {
		in.prov = w.throughManager(in.prov)
	}
	return nil
}

// refuses reports whether the store may refuse the names in o: bolt's
// names are 1 to 32768 bytes long, redis has one reserved key.
func (c *Cfg) refuses(o *Op) bool {
	switch c.Backend {
	case "bolt":
		bad := func(s Str) bool { return len(s) == 0 || len(s) > 32768 }
		if o.Op == "create" || o.Op == "put" || o.Op == "del" {
			for _, k := range o.Keys {
				if bad(k) {
					return true
				}
			}
		}
		if o.Op == "create" || o.Op == "refresh" {
			id, _ := split(string(o.T))
			return len(id) == 0 || len(o.T) > 32768 || len(o.NT) > 32768
		}
	case "redis":
		mk := c.MetaKey
		if mk == "" {
			mk = "__private_provider_redis"
		}
		for _, k := range o.Keys {
			if k == mk {
				return true
			}
		}
	}
	return false
}

func pairs(keys, vals []Str) []sessionid.PairBytes {
	r := make([]sessionid.PairBytes, len(keys))
	for i := range keys {
		r[i] = sessionid.PairBytes{Key: string(keys[i]), Value: []byte(vals[i])}
		if vals[i] == "" && len(keys)%2 == 0 {
			r[i].Value = nil
		}
	}
	return r
}

func (w *world) at(o *Op) {
	if o.At > 0 {
		if d := time.Duration(o.At) - w.k.Now(); d > 0 {
			w.k.Sleep(d)
		}
	}
	if o.D > 0 {
		w.k.Sleep(time.Duration(o.D))
	}
}

// do executes one operation and records it.
func (w *world) do(client int, in *inst, o Op) *Rec {
	w.at(&o)
	k := w.k
	r := &Rec{Op: o, Client: client, Inst: in.idx, Phase: w.phase, Space: in.space, Cfg: in.cfg, Faulty: w.faulty}
	if in.cfg.Backend == "memory" {
		r.Space = "memory" + strconv.Itoa(w.phase) + "." + strconv.Itoa(in.idx)
	}
	r.Expect = in.cfg.refuses(&o)
	k.Yield("op")
	k.ExitIfDead()
	w.hist = append(w.hist, r)
	r.TCall = k.Now()
	r.Call = k.Seq()
	k.Tracef("%s(%s)", o.Op, o.T)
	var e error
	done := false
	func() {
		defer func() {
			if x := recover(); x != nil {
				t := simrt.Self()
				if t != nil && (t.Exiting() || t.Node.Dead) {
					return
				}
				r.Panic = fmt.Sprint(x)
				w.violate("panic", "%s panicked: %v\n%s", r, x, trimStack(string(debug.Stack())))
			}
		}()
		e = w.call(in, &o, r)
		done = true
	}()
	t := simrt.Self()
	if t != nil && (t.Exiting() || (t.Node.Dead && !t.Zombie)) {
		return r // the process died before it could see the answer
	}
	r.Faulty = r.Faulty || w.faulty
	r.TRet = k.Now()
	r.Ret = k.Seq()
	w.checkKept()
	if !done {
		r.Res, r.Err = "other", "panic"
		return r
	}
	r.Res = classify(e)
	if o.Ctx != 0 && r.Res == "other" {
		w.count("context.ended")
	}
	if e != nil {
		r.Err = e.Error()
	}
	k.Tracef("%s", r)
	return r
}

// ctx is the context of one operation; many callers end it afterwards.
func (w *world) ctx() (context.Context, context.CancelFunc) {
	if w.p.Opts["ctx"] == 0 {
		return context.Background(), func() {}
	}
	return context.WithCancel(context.WithValue(context.Background(), w, w.p.Opts["ctx"]))
}

func (w *world) call(in *inst, o *Op, r *Rec) (e error) {
	ctx, end := w.ctx()
	defer end()
	switch {
	case o.Ctx > 0:
		c, cancel := context.WithTimeout(ctx, time.Duration(o.Ctx))
		defer cancel()
		ctx, r.Faulty = c, true
	case o.Ctx < 0 && o.Ctx >= -maxTurns:
		c, cancel := context.WithCancel(ctx)
		defer cancel()
		turns, over := -o.Ctx, false
		defer func() { over = true }()
		w.k.Go(in.node, "cancel", func() {
			for ; turns > 0 && !over; turns-- {
				w.k.Yield("cancel")
			}
			cancel()
		})
		ctx, r.Faulty = c, true
	case o.Ctx < 0:
		c, cancel := context.WithCancel(ctx)
		defer cancel()
		t := time.AfterFunc(time.Duration(-o.Ctx), cancel)
		defer t.Stop()
		ctx, r.Faulty = c, true
	}
	p := in.prov
	switch o.Op {
	case "create":
		in := w.lend(o.Keys, o.Vals)
		e = p.Create(ctx, string(o.T), string(o.R), in)
		w.scribble(r, in, o)
	case "destroy":
		e = p.Destroy(ctx, string(o.ID))
	case "destroyt":
		e = p.DestroyByToken(ctx, string(o.T))
	case "check":
		e = p.Check(ctx, string(o.T))
	case "put":
		in := w.lend(o.Keys, o.Vals)
		e = p.Put(ctx, string(o.T), in)
		w.scribble(r, in, o)
	case "get":
		var vals []sessionid.Value
		in := w.lendKeys(o.Keys)
		vals, e = p.Get(ctx, string(o.T), in)
		w.scribbleKeys(r, in, o)
		if e == nil {
			r.Vals = []string{}
			for _, v := range vals {
				if v.Exists {
					r.Vals = append(r.Vals, "+"+string(v.Bytes))
				} else {
					r.Vals = append(r.Vals, "-")
				}
			}
			w.keep(r, vals)
		}
	case "keys":
		var keys []string
		keys, e = p.Keys(ctx, string(o.T))
		if e == nil {
			r.Keys = append([]string{}, keys...)
			if w.p.Opts["keep"] != 0 { // the list is the caller's
				keys = keys[:cap(keys)]
				for i := range keys {
					keys[i] = "!"
				}
			}
		}
	case "del":
		in := w.lendKeys(o.Keys)
		e = p.Delete(ctx, string(o.T), in)
		w.scribbleKeys(r, in, o)
	case "refresh":
		e = p.Refresh(ctx, string(o.T), string(o.R), string(o.NT), string(o.NR))
	case "close":
		if in.closing == 0 {
			in.closing = w.k.Seq()
		}
		e = p.Close()
		if e == nil {
			in.closed = w.k.Seq()
		}
	case "clear":
		if in.bolt != nil {
			e = in.bolt.Clear()
		}
	case "sleep":
	default:
		e = w.special(in, o, r)
	}
	return e
}

// onNode runs fn as a task of a node and waits until it ended; false when the
// node died meanwhile.
func (w *world) onNode(n *simrt.Node, name string, fn func()) bool {
	ok := false
	t := w.k.Go(n, name, func() { fn(); ok = true })
	w.k.Wait(name, t)
	return ok
}

func (w *world) crashNode(n *simrt.Node) {
	if n.Dead {
		return
	}
	w.k.Crash(n)
	w.dead = true
	seq, now := w.k.Seq(), w.k.Now()
	w.crash, w.died = seq, now
	for _, r := range w.hist {
		if r.Ret == 0 && r.CrashSeq == 0 {
			for _, in := range w.insts {
				if in.node == n && in.idx == r.Inst && r.Phase == w.phase {
					r.CrashSeq, r.TDied = seq, now
				}
			}
		}
	}
}

func (w *world) setFaults(on bool) {
	f := &w.p.Faults
	if w.fs != nil {
		w.fs.F = simdisk.Faults{WriteErr: f.Disk.Write, ShortErr: f.Disk.Short, SyncErr: f.Disk.Sync, TruncErr: f.Disk.Trunc,
			CrashOp: f.Disk.Crash, Active: on, OnCrash: func(n *simrt.Node) {
				w.fs.Count["crash.disk.op"]++
				w.crashNode(n)
			}}
	}
	if w.srv != nil {
		n := &f.Net
		w.srv.F = fakeredis.Faults{ResetBefore: n.Reset, LostReply: n.Lost, Delay: n.Delay, DelayReply: n.DelayReply, MaxDelay: time.Duration(n.MaxDelay),
			Partial: n.Partial, ErrReply: n.Err, DialErr: n.Dial, CrashOp: n.Crash, Latency: time.Duration(w.p.Cfg.Latency), Active: on,
			NoLate: w.p.Cfg.Retries >= 0,
			OnCrash: func(n *simrt.Node) {
				w.srv.Count["crash.net.op"]++
				w.crashNode(n)
			}}
	}
	if on {
		w.faulty = true
	}
}

func (p *Plan) anyFaults() bool {
	d, n := p.Faults.Disk, p.Faults.Net
	return d.Write+d.Short+d.Sync+d.Trunc+d.Crash+n.Reset+n.Lost+n.Delay+n.DelayReply+n.Partial+n.Err+n.Dial+n.Crash+n.Restarts > 0
}

// main is the script of a run.
func (w *world) main() {
	w.foreignRedis()
	w.foreign = w.foreignState()
	for pi := range w.p.Phases {
		ph := &w.p.Phases[pi]
		w.phase = pi
		cfg := w.p.Cfg
		if ph.Cfg != nil {
			cfg = *ph.Cfg
		}
		last := pi == len(w.p.Phases)-1
		if !w.runPhase(ph, &cfg, last) {
			break
		}
		if len(w.k.Panics) > 0 {
			break
		}
	}
	w.checkKept()
	if w.srv != nil && w.p.Opts["foreign"] == 1 {
		if f := w.foreignState(); f != w.foreign {
			w.violate("foreign", "keys outside the provider's prefix changed: before\n%s\nafter\n%s", w.foreign, f)
		}
	}
	// release what is left
	if w.srv != nil {
		w.srv.Shutdown()
	}
	w.calm()
}

// calm lets everything that is stalled go on and end.
func (w *world) calm() {
	k := w.k
	st, fr := k.P.StallProb, k.P.FreezeProb
	k.P.StallProb, k.P.FreezeProb = 0, 0
	k.Sleep(k.P.MaxStall + time.Second)
	k.P.StallProb, k.P.FreezeProb = st, fr
}

func (w *world) runPhase(ph *Phase, cfg *Cfg, last bool) bool {
	k := w.k
	w.dead = false
	w.insts = nil
	if d := time.Duration(ph.OpenAt) - k.Now(); d > 0 {
		k.Sleep(d)
	}
	if z := w.p.Opts["zone"]; z > 0 {
		time.Local = zoneOf(z, w.phase)
	}
	w.opened = k.Now()
	n := cfg.Insts
	if n < 1 {
		n = 1
	}
	shared := &simrt.Node{Name: fmt.Sprintf("p%d", w.phase)}
	for i := 0; i < n; i++ {
		in := &inst{idx: i, cfg: cfg, space: cfg.space(i), node: shared}
		if cfg.Backend == "redis" && i > 0 {
			in.node = &simrt.Node{Name: fmt.Sprintf("p%d.%d", w.phase, i)}
		}
		w.insts = append(w.insts, in)
	}
	w.faulty = false
	crashy := w.p.anyFaults() && !last
	if crashy && w.p.Opts["crashopen"] > 0 {
		w.setFaults(true)
	}
	var db *bolt.DB
	foreign := ""
	opened := true
	for _, in := range w.insts {
		in := in
		var e error
		ok := w.onNode(in.node, "open", func() {
			if cfg.Backend == "bolt" && cfg.WithDB && db == nil {
				db, e = bolt.Open(dbPath, 0600, &bolt.Options{Timeout: 3 * time.Second})
				if e != nil {
					return
				}
				if w.p.Opts["foreign"] == 1 {
					if e = fillForeign(db, cfg.Spaces); e != nil {
						return
					}
					foreign, _ = foreignBolt(db, cfg.Spaces)
				}
			}
			defer func() {
				if x := recover(); x != nil && !simrt.Self().Exiting() {
					w.violate("panic", "opening the provider panicked: %v\n%s", x, trimStack(string(debug.Stack())))
					e = fmt.Errorf("panic")
				}
			}()
			if w.p.Opts["decoy"] == 1 && w.phase == 0 && in.idx == 0 {
				if e = w.decoy(cfg); e != nil {
					return
				}
			}
			if cfg.Backend == "bolt" && w.p.Opts["faultopen"] > 0 {
				e = w.openFaulty(in, db)
				return
			}
			e = w.open(in, db)
		})
		if !ok || w.dead {
			opened = false
			break
		}
		if e != nil {
			opened = false
			if !w.faulty || w.p.Faults.Disk.Write+w.p.Faults.Disk.Short+w.p.Faults.Disk.Sync+w.p.Faults.Disk.Trunc == 0 {
				w.violate("open", "opening the provider on an intact store failed: %v", e)
			}
			break
		}
	}
	if opened {
		w.body(ph, cfg, crashy || (last && len(w.p.Phases) == 1 && w.p.anyFaults()))
	}
	w.setFaults(false)
	if len(w.viol) > 0 && w.p.Opts["stopfirst"] == 1 {
		last = true
	}
	// the end of the phase
	if w.dead || ph.End == "kill" {
		loss := w.p.Faults.Disk.PowerLoss && w.k.Ch.Choose(2, "powerloss") == 1
		for _, in := range w.insts {
			w.crashNode(in.node)
		}
		k.Sleep(0)
		if w.fs != nil {
			if loss {
				w.fs.Count["crash.powerloss"]++
			}
			for _, in := range w.insts {
				w.fs.NodeCrashed(in.node, loss)
			}
		}
		w.release()
		return true
	}
	for _, in := range w.insts {
		if in.prov == nil {
			continue
		}
		in := in
		w.onNode(in.node, "close", func() {
			r := w.do(102, in, Op{Op: "close"})
			if in.closed == 0 || r.Res != "ok" && r.Res != "closed" {
				if r.Ret != 0 {
					w.violate("close", "Close of an open provider did not succeed: %s", r)
				}
			}
		})
	}
	if w.p.Opts["afterclose"] == 1 {
		w.afterClose(db)
	}
	if db != nil {
		w.onNode(shared, "closedb", func() {
			if w.p.Opts["foreign"] == 1 {
				f, e := foreignBolt(db, cfg.Spaces)
				if e != nil || f != foreign {
					w.violate("foreign", "buckets outside the provider's changed (%v): before\n%s\nafter\n%s", e, foreign, f)
				}
			}
			if e := db.Close(); e != nil {
				w.violate("dbclose", "the caller's database handle was no longer usable after Close: %v", e)
			}
		})
	}
	return true
}

// openFaulty opens the provider while its disk fails, and again when it works.
func (w *world) openFaulty(in *inst, db *bolt.DB) (e error) {
	if db == nil && w.phase == 0 { // the library leaks a file that it cannot initialize
		x, e := bolt.Open(dbPath, 0600, &bolt.Options{Timeout: 3 * time.Second})
		if e == nil {
			e = x.Close()
		}
		if e != nil {
			return e
		}
	}
	for i := 0; i < w.p.Opts["faultopen"]; i++ {
		w.setFaults(true)
		before := w.k.Now()
		e = w.open(in, db)
		w.setFaults(false)
		if e == nil {
			w.faulty = false
			return nil
		}
		w.count("open.failed")
		if errors.Is(e, bolt.ErrTimeout) || w.k.Now()-before >= 3*time.Second {
			w.violate("open", "an attempt to open the provider failed (%v) because an earlier one still holds the file", e)
		}
	}
	w.faulty = false
	return w.open(in, db)
}

// decoy opens and closes a provider with options of its own, which must not
// matter for others.
func (w *world) decoy(cfg *Cfg) error {
	var p interface{ Close() error }
	var e error
	w.count("decoy")
	switch cfg.Backend {
	case "memory":
		p = sessionid.NewProvider(sessionid.WithProviderMaxSize(1), sessionid.WithProviderCheckBatch(3),
			sessionid.WithProviderClear(7*time.Millisecond), sessionid.WithProviderAccess(5*time.Millisecond), sessionid.WithProviderRefresh(11*time.Millisecond))
	case "bolt":
		p, e = pbolt.New(pbolt.WithFilename(dbPath+".decoy"), pbolt.WithTimeout(time.Second), pbolt.WithBucket([]byte("decoy")), pbolt.WithMaxSize(1), pbolt.WithCheckBatch(3),
			pbolt.WithClear(7*time.Millisecond), pbolt.WithAccess(5*time.Millisecond), pbolt.WithRefresh(11*time.Millisecond))
	default:
		c := redis.NewClient(&redis.Options{Addr: "sim:6379", Dialer: w.srv.Dial, IdleCheckFrequency: -1})
		p, e = predis.New(predis.WithClient(c), predis.WithCheckBatch(3), predis.WithKeyPrefix("decoy"), predis.WithMetadataKey("decoy"),
			predis.WithCoder(sessionid.JSONCoder{}), predis.WithAccess(5*time.Millisecond), predis.WithRefresh(11*time.Millisecond))
	}
	if e != nil {
		return e
	}
	return p.Close()
}

// openSecond opens another provider on the file of in.
func (w *world) openSecond(in *inst, o *Op, r *Rec) {
	if in.cfg.Backend != "bolt" || in.cfg.WithDB {
		return
	}
	patience := pick(&rng{uint64(o.N)}, ms, 60*ms, time.Second, 3*time.Second)
	faulty := w.p.anyFaults()
	start := w.k.Now()
	w.seconds++
	nth, alone := w.seconds, w.second == 0
	w.second++
	defer func() { w.second-- }()
	p, e := pbolt.New(pbolt.WithBucket([]byte(in.space)), pbolt.WithFilename(dbPath), pbolt.WithTimeout(patience))
	took := w.k.Now() - start
	if slack := 20*time.Duration(w.k.P.MaxStall) + time.Second; took > patience+slack {
		w.violate("open", "opening a second provider on the file returned after %v although its timeout is %v", took, patience)
	}
	if e != nil {
		if in.closed != 0 && in.closed < r.Call && !faulty && alone && w.seconds == nth {
			w.violate("open", "the provider is closed, but its file cannot be opened: %v", e)
		}
		return
	}
	if in.closing == 0 {
		w.violate("open", "a second provider was opened on the file of one that is open")
	}
	w.count("open.second")
	if e := p.Close(); e != nil {
		w.violate("close", "Close of a second provider failed: %v", e)
	}
}

// release lets the goroutines of crashed processes end.
func (w *world) release() {
	for _, in := range w.insts {
		if in.prov == nil {
			continue
		}
		in := in
		t := w.k.GoZombie(in.node, "release", func() {
			defer func() { recover() }()
			in.prov.Close()
		})
		w.k.Wait("release", t)
		if in.client != nil {
			c := in.client
			t := w.k.GoZombie(in.node, "release", func() {
				defer func() { recover() }()
				c.Close()
			})
			w.k.Wait("release", t)
		}
	}
}

func (w *world) instOf(o *Op, client int) *inst {
	if o.Inst > 0 {
		return w.insts[(o.Inst-1)%len(w.insts)]
	}
	return w.insts[client%len(w.insts)]
}

func (w *world) seq(client int, ops []Op, name string) {
	// consecutive operations of one instance share a task
	for i := 0; i < len(ops); {
		in := w.instOf(&ops[i], 0)
		j := i
		for j < len(ops) && w.instOf(&ops[j], 0) == in {
			j++
		}
		part := ops[i:j]
		w.onNode(in.node, name, func() {
			for _, o := range part {
				w.do(client, in, o)
			}
		})
		if w.dead {
			return
		}
		i = j
	}
}

func (w *world) body(ph *Phase, cfg *Cfg, faults bool) {
	k := w.k
	w.seq(100, ph.Setup, "setup")
	if faults {
		w.setFaults(true)
	}
	if !w.dead {
		var ts []*simrt.Task
		for c, ops := range ph.Clients {
			c, ops := c, ops
			in := w.instOf(&Op{}, c)
			ts = append(ts, k.Go(in.node, fmt.Sprintf("c%d", c), func() {
				for i := range ops {
					x := in
					if ops[i].Inst > 0 {
						x = w.instOf(&ops[i], c)
					}
					w.do(c, x, ops[i])
				}
			}))
		}
		if faults && w.srv != nil && w.p.Faults.Net.Restarts > 0 {
			ts = append(ts, k.Go(w.sysn, "restarter", func() {
				for i := 0; i < w.p.Faults.Net.Restarts; i++ {
					k.Sleep(k.Ch.Duration(200*time.Millisecond, "restart"))
					w.srv.Stop()
					k.Sleep(k.Ch.Duration(100*time.Millisecond, "downtime"))
					w.srv.Start()
				}
			}))
		}
		if w.p.Opts["killmid"] == 1 {
			ts = append(ts, k.Go(w.sysn, "killer", func() {
				n := k.Ch.Choose(400, "killat")
				at := k.Switches + int64(n)
				left := ts[:len(ts):len(ts)]
				k.WaitUntil("kill", func() bool {
					if k.Switches >= at {
						return true
					}
					for _, t := range left {
						if !t.Done() && t.Name != "killer" {
							return false
						}
					}
					return true
				}, time.Time{})
				w.count("crash.kill")
				w.crashNode(w.insts[0].node)
			}))
		}
		k.Wait("clients", ts...)
	}
	w.setFaults(false)
	if w.dead {
		return
	}
	if d := time.Duration(ph.Settle); d > 0 {
		k.Sleep(d)
	}
	w.faulty = false
	w.seq(101, ph.Final, "final")
	if w.dead {
		return
	}
	w.inspect(ph)
}

func (w *world) count(kind string) {
	if w.fs != nil {
		w.fs.Count[kind]++
	} else if w.srv != nil {
		w.srv.Count[kind]++
	}
}

// prepare resets the process-wide state that the code under test uses.
func prepare(ch *simrt.Chooser) {
	time.Local = time.UTC
	uuidNow = time.Now
	simrt.SeedRandom(uint64(ch.Choose(1<<20, "random")))
	rand.Reader = simrt.RandReader{}
	uuid.SetRand(simrt.RandReader{})
	uuid.SetNodeID([]byte{1, 2, 3, 4, 5, 6})
	uuid.SetClockSequence(1)
	uuid.SetClockSequence(2)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		if strings.Contains(lines[i], "sessionid") && strings.HasPrefix(lines[i+1], "\t") {
			out = append(out, strings.TrimSpace(lines[i]))
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, "\n")
}

func sortedKeys(m map[string]int64) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var _ = os.Exit

type quiet struct{}

func (quiet) Printf(ctx context.Context, format string, v ...interface{}) {}

func init() { redis.SetLogger(quiet{}) }
