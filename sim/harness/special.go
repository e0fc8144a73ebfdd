package harness

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/boltdb/bolt"
	"github.com/powerpuffpenguin/sessionid"

	"verifsim/simrt"
)

// ---- values that cross the provider boundary (C12) ----

type kept struct {
	r    *Rec
	b    []byte
	want []byte
	what string
}

const spare = 8 // bytes behind the values that are lent

// lend makes the pairs for a call. The slices have room behind their ends that
// belongs to the caller too.
func (w *world) lend(keys, vals []Str) []sessionid.PairBytes {
	if w.p.Opts["scribble"] == 0 {
		return pairs(keys, vals)
	}
	in := make([]sessionid.PairBytes, len(keys), len(keys)+2)
	for i := range keys {
		b := append(make([]byte, 0, len(vals[i])+spare), vals[i]...)
		for j := range b[len(b):cap(b)] {
			b[:cap(b)][len(b)+j] = '~'
		}
		in[i] = sessionid.PairBytes{Key: string(keys[i]), Value: b}
	}
	return in
}

// lendKeys does so for a list of keys.
func (w *world) lendKeys(keys []Str) []string {
	r := make([]string, len(keys), len(keys)+2)
	for i := range keys {
		r[i] = string(keys[i])
	}
	return r
}

// scribble looks whether the slices passed to a call that has returned are what
// they were, and overwrites them.
func (w *world) scribble(r *Rec, in []sessionid.PairBytes, o *Op) {
	if w.p.Opts["scribble"] == 0 {
		return
	}
	for i, p := range in {
		b := p.Value[:cap(p.Value)]
		if p.Key != string(o.Keys[i]) || string(p.Value) != string(o.Vals[i]) || strings.Trim(string(b[len(p.Value):]), "~") != "" {
			w.violate("argument-changed", "%s changed a slice of its caller: %q %q, with what is behind it %q", r, p.Key, p.Value, b)
		}
		for j := range b {
			b[j] = '#'
		}
		in[i] = sessionid.PairBytes{Key: "#", Value: b}
	}
	for _, p := range in[len(in):cap(in)] {
		if p.Key != "" || p.Value != nil {
			w.violate("argument-changed", "%s wrote behind the pairs of its caller: %q", r, p.Key)
		}
	}
}

// scribbleKeys does so for a list of keys.
func (w *world) scribbleKeys(r *Rec, in []string, o *Op) {
	if w.p.Opts["scribble"] == 0 {
		return
	}
	for i, k := range in {
		if k != string(o.Keys[i]) {
			w.violate("argument-changed", "%s changed the list of keys of its caller: %q", r, in)
			break
		}
	}
	for _, k := range in[len(in):cap(in)] {
		if k != "" {
			w.violate("argument-changed", "%s wrote behind the list of keys of its caller: %q", r, k)
		}
	}
	for i := range in {
		in[i] = "#"
	}
}

// keep holds on to returned slices, overwriting some of them.
func (w *world) keep(r *Rec, vals []sessionid.Value) {
	if w.p.Opts["keep"] == 0 {
		return
	}
	var ks []*kept
	for _, v := range vals {
		if len(v.Bytes) != 0 {
			ks = append(ks, &kept{r: r, b: v.Bytes, what: "kept", want: append([]byte(nil), v.Bytes...)})
		}
	}
	w.kept = append(w.kept, ks...)
	for _, k := range ks {
		if w.k.Ch.Choose(3, "scribble") == 0 {
			b := k.b
			if w.k.Ch.Choose(2, "cap") == 0 {
				b = b[:cap(b)] // as append does
			}
			for i := range b {
				b[i] = '!'
			}
			k.what = "overwritten by its owner"
			k.want = append([]byte(nil), k.b...)
		}
	}
}

func (w *world) checkKept() {
	for _, k := range w.kept {
		if !bytes.Equal(k.b, k.want) {
			w.violate("value-changed", "a value returned by %s and then %s changed from %q to %q", k.r, k.what, k.want, k.b)
			return
		}
	}
}

// ---- what is left of sessions (C08) ----

// allTokens lists every token and id of the plan.
func (p *Plan) names() (toks, ids map[string]bool) {
	toks, ids = map[string]bool{}, map[string]bool{}
	add := func(o *Op) {
		for _, t := range []Str{o.T, o.R, o.NT, o.NR} {
			if t != "" {
				toks[string(t)] = true
				if id, ok := split(string(t)); ok {
					ids[id] = true
				}
			}
		}
	}
	for i := range p.Phases {
		ph := &p.Phases[i]
		for j := range ph.Setup {
			add(&ph.Setup[j])
		}
		for _, c := range ph.Clients {
			for j := range c {
				add(&c[j])
			}
		}
		for j := range ph.Final {
			add(&ph.Final[j])
		}
	}
	return
}

// walkMem visits everything reachable from v; str is told of every string and
// entry of every element of a map or slice.
func walkMem(v reflect.Value, seen map[uintptr]bool, str func(string), entry func()) {
	switch v.Kind() {
	case reflect.String:
		str(v.String())
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		walkMem(v.Elem(), seen, str, entry)
	case reflect.Interface:
		if !v.IsNil() {
			walkMem(v.Elem(), seen, str, entry)
		}
	case reflect.Struct:
		if t := v.Type(); t.PkgPath() == "time" || t.PkgPath() == "sync" || strings.HasSuffix(t.PkgPath(), "/simsync") {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			walkMem(v.Field(i), seen, str, entry)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		it := v.MapRange()
		for it.Next() {
			entry()
			walkMem(it.Key(), seen, str, entry)
			walkMem(it.Value(), seen, str, entry)
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			str(string(b))
			return
		}
		for i := 0; i < v.Len(); i++ {
			entry()
			walkMem(v.Index(i), seen, str, entry)
		}
	}
}

func memNames(m *sessionid.MemoryProvider) (names map[string]bool, entries int) {
	names = map[string]bool{}
	walkMem(reflect.ValueOf(m), map[uintptr]bool{}, func(s string) { names[s] = true }, func() { entries++ })
	return
}

type leaf struct {
	path       string
	key, value string
	bucket     bool
}

func (l leaf) String() string { return fmt.Sprintf("%s/%q=%q", l.path, l.key, l.value) }

func boltLeaves(db *bolt.DB, bucket string) (out []leaf, e error) {
	e = db.View(func(t *bolt.Tx) error {
		b := t.Bucket([]byte(bucket))
		if b == nil {
			return nil
		}
		var walk func(b *bolt.Bucket, path string) error
		walk = func(b *bolt.Bucket, path string) error {
			return b.ForEach(func(k, v []byte) error {
				if v == nil {
					if sub := b.Bucket(k); sub != nil {
						out = append(out, leaf{path, string(k), "", true})
						return walk(sub, path+"/"+string(k))
					}
				}
				out = append(out, leaf{path, string(k), string(v), false})
				return nil
			})
		}
		return walk(b, "")
	})
	return
}

// states replays the history so far, which must be sequential, through the model.
func (w *world) states() []*mstate {
	cur := []*mstate{{}}
	for _, r := range w.hist {
		switch r.Op.Op {
		case "create", "destroy", "destroyt", "check", "put", "get", "keys", "del", "refresh", "clear":
		default:
			continue
		}
		var next []*mstate
		for _, m := range cur {
			for _, o := range m.outcomes(r, modelOpts{cap: true, keepDead: true}) {
				if o.matches(r, modelOpts{}) {
					next = append(next, o.st)
				}
			}
		}
		if len(next) > 8 {
			next = next[:8]
		}
		if len(next) == 0 {
			return nil
		}
		cur = next
	}
	return cur
}

// residue compares what the store still holds with the sessions that may still
// be held.  slack is how long a dead session may linger.
func (w *world) residue(in *inst, allGone bool) {
	if k := w.k; k.P.StallProb > 0 || k.P.FreezeProb > 0 {
		// the cleaning may be held up: it gets its time without being so
		w.calm()
		st, fr := k.P.StallProb, k.P.FreezeProb
		k.P.StallProb, k.P.FreezeProb = 0, 0
		k.Sleep(time.Duration(in.cfg.Clear))
		k.P.StallProb, k.P.FreezeProb = st, fr
	}
	now := w.k.Now()
	toks, ids := w.p.names()
	okTok, okID := map[string]bool{}, map[string]bool{}
	var sts []*mstate
	if !allGone {
		sts = w.states()
		if sts == nil {
			return // the history check reports this
		}
		for _, m := range sts {
			for _, x := range m.s {
				linger := time.Duration(1 << 61)
				if c := time.Duration(in.cfg.Clear); c > 0 && in.cfg.Backend != "redis" {
					linger = c + time.Millisecond
				}
				if in.cfg.Backend == "redis" {
					linger = time.Second
				}
				died := x.rHi
				if died < w.opened { // the cleaner's period starts with the process
					died = w.opened
				}
				if died+linger < now {
					continue
				}
				// an operation found it dead and its cleaning had time to happen
				touched := false
				for _, r := range w.hist {
					if r.Ret != 0 && r.Phase == w.phase && string(r.Op.T) == x.token && r.TCall >= x.rHi && r.Res == "notexists" && now-r.TRet >= time.Second {
						touched = true
					}
				}
				if touched {
					continue
				}
				okTok[x.token], okTok[x.refresh], okID[x.id] = true, true, true
			}
		}
	}
	if w.stack != nil {
		for _, names := range []map[string]bool{toks, ids, okTok, okID} {
			w.stack.held(names)
		}
	}
	// The cleaner looks at sessions in the order in which they were made and
	// ends at the first that is not dead: one that was made under a longer
	// lifetime, before a restart, has it overlook those behind.
	behind := map[string]bool{}
	for _, m := range sts {
		for _, x := range m.s {
			for _, y := range m.s {
				if in.cfg.Backend == "bolt" && y.born < x.born && y.rLo > x.rHi && okTok[y.token] && !okTok[x.token] {
					behind[x.token] = true
				}
			}
		}
	}
	if w.stack != nil {
		w.stack.held(behind)
	}
	bad := func(where, what string) {
		w.violate("residue", "at %v the store of a %s provider still holds %s %q, although no session has it any more (history: %s)", now, in.cfg.Backend, where, what, w.lastOps(12))
	}
	switch in.cfg.Backend {
	case "memory":
		names, entries := memNames(in.mem)
		var ns []string
		for n := range names {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			if toks[n] && !okTok[n] {
				bad("token", n)
			} else if ids[n] && !okID[n] {
				bad("id", n)
			}
		}
		if allGone && entries > w.fresh[in] {
			w.violate("residue", "at %v, with every session gone, the memory provider holds %d index entries; a fresh one holds %d (history: %s)", now, entries, w.fresh[in], w.lastOps(12))
		}
	case "bolt":
		db := in.db
		if db == nil {
			return
		}
		var ls []leaf
		var e error
		w.onNode(in.node, "inspect", func() { ls, e = boltLeaves(db, in.space) })
		if e != nil {
			w.violate("residue", "the database cannot be read: %v", e)
			return
		}
		for _, l := range ls {
			if behind[l.key] && l.path != "" {
				w.violate("clean-order", "at %v a bolt provider still holds session %q, which is dead, behind a live one that was made before it under a longer lifetime, before a restart (history: %s)", now, l.key, w.lastOps(12))
			}
		}
		for _, m := range sts {
			for _, x := range m.s {
				if behind[x.token] {
					okTok[x.token], okTok[x.refresh], okID[x.id] = true, true, true
				}
			}
		}
		if w.stack != nil {
			w.stack.held(okTok)
			w.stack.held(okID)
		}
		w.residueBolt(ls, toks, ids, okTok, okID, allGone, bad)
	case "redis":
		for _, key := range w.srv.Keys() {
			if !strings.HasPrefix(key, in.space) {
				continue
			}
			t := key[len(in.space):]
			if !okTok[t] {
				bad("key", key)
				continue
			}
			d, ok := w.srv.TTL(key)
			if max := later(time.Second, in.cfg.Refresh); !ok {
				w.violate("no-ttl", "redis key %q has no time to live", key)
			} else if d > max {
				w.violate("no-ttl", "redis key %q lives for %v more, longer than any session", key, d)
			}
		}
	}
}

// without is value without the names that contain t.
func without(value string, names map[string]bool, t string) string {
	var longer []string
	for n := range names {
		if len(n) > len(t) && strings.Contains(n, t) {
			longer = append(longer, n)
		}
	}
	sort.Slice(longer, func(i, j int) bool {
		return len(longer[i]) > len(longer[j]) || len(longer[i]) == len(longer[j]) && longer[i] < longer[j]
	})
	for _, n := range longer {
		value = strings.ReplaceAll(value, n, "\x00")
	}
	return value
}

// extends reports whether value holds a name that t is a longer form of: what
// follows a name in a list is the length of the next one, and a length can
// look like the rest of t.
func extends(value string, names map[string]bool, t string) bool {
	for n := range names {
		if n != "" && len(n) < len(t) && strings.Contains(t, n) && strings.Contains(value, n) {
			return true
		}
	}
	return false
}

func (w *world) residueBolt(ls []leaf, toks, ids, okTok, okID map[string]bool, allGone bool, bad func(a, b string)) {
	var all []string
	for t := range toks {
		if !okTok[t] {
			all = append(all, t)
		}
	}
	sort.Strings(all)
	for _, l := range ls {
		if ids[l.key] && !l.bucket && !okID[l.key] && l.path != "" {
			bad("an index entry for id", l.key)
		}
		for _, t := range all {
			if l.key == t || strings.Contains(l.value, t) && strings.Contains(without(l.value, okTok, t), t) && !extends(l.value, okTok, t) {
				bad("at "+l.path+"/"+l.key+" the token", t)
			}
		}
	}
	for _, l := range ls {
		if !l.bucket {
			if strings.Trim(l.value, "\x00") == "" && l.path == "" {
				continue // a counter at zero
			}
			if allGone {
				w.violate("residue", "with every session gone the database still holds %s/%q = %q (history: %s)", l.path, l.key, l.value, w.lastOps(12))
			}
		} else if l.path != "" && allGone {
			w.violate("residue", "with every session gone the database still holds the bucket %s/%q (history: %s)", l.path, l.key, w.lastOps(12))
		}
	}
}

func (w *world) lastOps(n int) string {
	h := w.hist
	if len(h) > n {
		h = h[len(h)-n:]
	}
	var s []string
	for _, r := range h {
		s = append(s, r.String())
	}
	return strings.Join(s, "; ")
}

// ---- the rest of the world ----

// foreign puts data of others into the store before the providers open it.
func (w *world) foreignRedis() {
	if w.p.Opts["foreign"] == 0 || w.srv == nil {
		return
	}
	for i, sp := range w.p.Cfg.Spaces {
		base := string(sp)
		for _, n := range []string{"x" + base + "u1.a.b", strings.ToUpper(base) + "u1.a.b", "other:u1.s0.x1", "u1.s0.x1", base[:len(base)-1], "*", "zz" + fmt.Sprint(i)} {
			if w.foreignKey(n) {
				w.srv.SetHash(n, map[string]string{"k": "v" + n, "__private_provider_redis": "not gob"})
			}
		}
	}
}

func (w *world) foreignKey(key string) bool {
	for _, sp := range w.p.Cfg.Spaces {
		if strings.HasPrefix(key, string(sp)) {
			return false
		}
	}
	return true
}

func (w *world) foreignState() string {
	var out []string
	if w.srv != nil {
		for _, k := range w.srv.Keys() {
			if w.foreignKey(k) {
				_, ttl := w.srv.TTL(k)
				out = append(out, fmt.Sprintf("%q=%q ttl=%v", k, fmt.Sprint(w.srv.Hash(k)), ttl))
			}
		}
	}
	return strings.Join(out, "\n")
}

var foreignBuckets = []string{"other", "metadata", "data", "ids", "lru", "ses", "sessions2"}

func fillForeign(db *bolt.DB, spaces []Str) error {
	return db.Update(func(t *bolt.Tx) error {
		for _, n := range foreignBuckets {
			if hasSpace(spaces, n) {
				continue
			}
			b, e := t.CreateBucketIfNotExists([]byte(n))
			if e != nil {
				return e
			}
			for _, k := range []string{"count", "u1", "u1.s0.x1"} {
				if e := b.Put([]byte(k), []byte("foreign "+n+k)); e != nil {
					return e
				}
			}
			c, e := b.CreateBucketIfNotExists([]byte("u1.s0.x2"))
			if e != nil {
				return e
			}
			if e := c.Put([]byte("a"), []byte("b")); e != nil {
				return e
			}
		}
		return nil
	})
}

func hasSpace(spaces []Str, n string) bool {
	for _, s := range spaces {
		if string(s) == n {
			return true
		}
	}
	return false
}

func foreignBolt(db *bolt.DB, spaces []Str) (string, error) {
	var out []string
	for _, n := range foreignBuckets {
		if hasSpace(spaces, n) {
			continue
		}
		ls, e := boltLeaves(db, n)
		if e != nil {
			return "", e
		}
		out = append(out, fmt.Sprintf("%s: %v", n, ls))
	}
	return strings.Join(out, "\n"), nil
}

// special executes the operations that are not the provider's.
func (w *world) special(in *inst, o *Op, r *Rec) error {
	switch o.Op {
	case "residue":
		w.residue(in, o.N == 1)
		return nil
	case "open2":
		w.openSecond(in, o, r)
		return nil
	}
	if strings.HasPrefix(o.Op, "m.") {
		return w.managerOp(in, o, r)
	}
	if strings.HasPrefix(o.Op, "h.") {
		return w.handleOp(in, o, r)
	}
	panic("unknown op " + o.Op)
}

func (w *world) inspect(ph *Phase) {
	w.checkKept()
	if w.p.Opts["allgone"] == 1 && !w.dead {
		for _, in := range w.insts {
			w.residue(in, true)
		}
	}
}

// ---- after Close (C09) ----

// watchStores notes who touches the stores after which Close.
func (w *world) watchDisk() {
	w.fs.OnOp = func(n *simrt.Node, op, path string) {
		if w.watching && n == w.insts[0].node {
			w.diskAfter = append(w.diskAfter, op)
		}
	}
}

func (w *world) watchRedis() {
	w.srv.OnCommand = func(n *simrt.Node, args []string) {
		for _, in := range w.insts {
			if w.watching && n == in.node {
				w.redisAfter = append(w.redisAfter, fmt.Sprintf("%q", args))
			}
		}
	}
}

// afterClose runs when every provider of the phase has been closed.
func (w *world) afterClose(db *bolt.DB) {
	k := w.k
	cfg := w.insts[0].cfg
	var before, after []leaf
	var e error
	snap := func(to *[]leaf) {
		w.onNode(w.insts[0].node, "snap", func() {
			var ls []leaf
			for _, in := range w.insts {
				l, e1 := boltLeaves(db, in.space)
				if e1 != nil {
					e = e1
				}
				ls = append(ls, l...)
			}
			*to = ls
		})
	}
	if db != nil {
		snap(&before)
	}
	w.calm() // what is in flight ends: replies, unlocks
	if cfg.Backend == "bolt" && db == nil && w.fs.Locked(dbPath) {
		w.violate("after-close", "the provider was closed but still holds the lock of the database file it had opened")
	}
	w.watching = true
	k.Sleep(2*time.Duration(cfg.Clear) + 2*time.Second)
	w.watching = false
	if len(w.diskAfter) > 0 {
		w.violate("after-close", "the closed provider still uses the disk: %v", w.diskAfter)
	}
	if len(w.redisAfter) > 0 {
		w.violate("after-close", "the closed provider still sends commands: %v", w.redisAfter)
	}
	if w.srv != nil {
		for _, in := range w.insts {
			if n := w.srv.OpenConns(in.node, in.closing); n > 0 {
				w.violate("after-close", "%d connections are still open after Close", n)
			}
		}
	}
	if db != nil {
		snap(&after)
		if e == nil && !reflect.DeepEqual(before, after) {
			w.violate("after-close", "the closed provider still changes the database: before %v, later %v", before, after)
		}
		w.onNode(w.insts[0].node, "usedb", func() {
			e := db.Update(func(t *bolt.Tx) error {
				_, e := t.CreateBucketIfNotExists([]byte("the caller's own"))
				return e
			})
			if e != nil {
				w.violate("dbclose", "the caller's database handle is not usable after Close: %v", e)
			}
		})
	}
	// every operation is refused now
	for _, in := range w.insts {
		in := in
		w.onNode(in.node, "late", func() {
			ops := []Op{{Op: "create", T: "u1.z.z", R: "u1.zr.z", Keys: []Str{"a"}, Vals: []Str{"1"}}, {Op: "destroy", ID: "u1"}, {Op: "destroyt", T: "u1.s0.x1"},
				{Op: "check", T: "u1.s0.x1"}, {Op: "put", T: "u1.s0.x1", Keys: []Str{"a"}, Vals: []Str{"1"}}, {Op: "put", T: "u1.s0.x1"}, {Op: "get", T: "u1.s0.x1", Keys: []Str{"a"}},
				{Op: "keys", T: "u1.s0.x1"}, {Op: "del", T: "u1.s0.x1", Keys: []Str{"a"}}, {Op: "del", T: "u1.s0.x1"}, {Op: "refresh", T: "u1.s0.x1", R: "u1.r0.y1", NT: "u1.z.1", NR: "u1.z.2"}, {Op: "close"}}
			if in.bolt != nil {
				ops = append(ops, Op{Op: "clear"}, Op{Op: "clear"}, Op{Op: "check", T: "u1.s0.x1"})
			}
			for _, o := range ops {
				w.do(103, in, o)
			}
		})
	}
}

func judgeClose(w *world) {
	closed := map[string]*Rec{}
	key := func(r *Rec) string { return fmt.Sprintf("%d.%d", r.Phase, r.Inst) }
	for _, r := range w.hist {
		if r.Op.Op != "close" || r.Ret == 0 {
			continue
		}
		if r.Res == "ok" {
			if o := closed[key(r)]; o != nil {
				w.violate("close", "Close succeeded twice on one provider: %s and %s", o, r)
			}
			closed[key(r)] = r
		} else if r.Res != "closed" {
			w.violate("close", "Close reported neither success nor that the provider is closed: %s", r)
		}
	}
	for _, r := range w.hist {
		c := closed[key(r)]
		if r.Ret == 0 || r.Op.Op == "sleep" || r.Op.Op == "residue" {
			continue
		}
		if r.Res == "closed" {
			first := false // some Close had begun
			for _, x := range w.hist {
				if x.Op.Op == "close" && key(x) == key(r) && x.Call < r.Ret {
					first = true
				}
			}
			if !first {
				w.violate("close", "the provider says it is closed, but Close was not called: %s", r)
			}
			continue
		}
		if c != nil && r != c && r.Call > c.Ret && !r.Expect {
			toks, same := opTokens(&r.Op)
			if r.Op.Op == "create" && r.TRet-r.TCall >= time.Duration(r.Cfg.Refresh) {
				continue // it ended before it could be stored
			}
			if len(badTokens(same, toks...)) == 0 {
				w.violate("late-op", "an operation on a closed provider was not refused: %s after %s", r, c)
			}
		}
	}
}
