package harness

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/anishathalye/porcupine"
)

// The reference model: sessions are entries of a map, with deadlines known up
// to the interval in which the operation that set them ran.

type msess struct {
	token, refresh, id string
	aLo, aHi, rLo, rHi time.Duration
	data               map[string]string
	born               int // creation or refresh order, for eviction
}

type mstate struct {
	s    []*msess // sorted by token; sessions are immutable
	next int
}

func (m *mstate) find(tok string) *msess {
	for _, x := range m.s {
		if x.token == tok {
			return x
		}
	}
	return nil
}

func (m *mstate) without(x *msess) *mstate {
	n := &mstate{next: m.next}
	for _, y := range m.s {
		if y != x {
			n.s = append(n.s, y)
		}
	}
	return n
}

func (m *mstate) with(x *msess) *mstate {
	n := &mstate{next: m.next + 1}
	x.born = m.next
	done := false
	for _, y := range m.s {
		if !done && x.token < y.token {
			n.s = append(n.s, x)
			done = true
		}
		n.s = append(n.s, y)
	}
	if !done {
		n.s = append(n.s, x)
	}
	return n
}

func (m *mstate) replace(old, x *msess) *mstate {
	n := &mstate{next: m.next, s: append([]*msess(nil), m.s...)}
	for i := range n.s {
		if n.s[i] == old {
			n.s[i] = x
		}
	}
	return n
}

func (x *msess) equal(y *msess) bool {
	if x == y {
		return true
	}
	if x.token != y.token || x.refresh != y.refresh || x.aLo != y.aLo || x.aHi != y.aHi || x.rLo != y.rLo || x.rHi != y.rHi || len(x.data) != len(y.data) {
		return false
	}
	for k, v := range x.data {
		if w, ok := y.data[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func (m *mstate) equal(o *mstate) bool {
	if len(m.s) != len(o.s) {
		return false
	}
	for i := range m.s {
		if !m.s[i].equal(o.s[i]) {
			return false
		}
	}
	for i := range m.s { // same eviction order
		for j := range m.s {
			if (m.s[i].born < m.s[j].born) != (o.s[i].born < o.s[j].born) {
				return false
			}
		}
	}
	return true
}

func (m *mstate) String() string {
	var out []string
	for _, x := range m.s {
		var kv []string
		for k, v := range x.data {
			kv = append(kv, fmt.Sprintf("%q=%q", k, v))
		}
		sort.Strings(kv)
		out = append(out, fmt.Sprintf("%q refresh=%q access<%v..%v refresh<%v..%v {%s}", x.token, x.refresh, x.aLo, x.aHi, x.rLo, x.rHi, strings.Join(kv, " ")))
	}
	return strings.Join(out, "; ")
}

// later is t+d, or for ever.
func later(t time.Duration, d Dur) time.Duration {
	if s := t + time.Duration(d); d <= 0 || s >= t {
		return s
	}
	return 1<<63 - 1
}

// what a session can be for an operation that looks at the clock somewhere in
// [from,to]
func (x *msess) alive(from time.Duration) bool { return from < x.aHi }
func (x *msess) expired(from, to time.Duration) bool {
	return to >= x.aLo && from < x.rHi
}
func (x *msess) dead(to time.Duration) bool { return to >= x.rLo }

// modelOpts choose what of the model a property fixes.
type modelOpts struct {
	statusOnly bool // values are not compared
	cap        bool // the whole store, with the size limit
	whole      bool // the whole store at once
	keepDead   bool // dead sessions stay in the state until their token is used again
}

func split(tok string) (id string, ok bool) {
	i := strings.LastIndexByte(tok, '.')
	if i < 0 {
		return "", false
	}
	j := strings.IndexByte(tok[:i], '.')
	if j < 0 {
		return "", false
	}
	return tok[:j], true
}

// badTokens lists the refusals a call with these tokens deserves for their form
// alone; none when they are well-formed and, where needed, of one id.
func badTokens(same bool, toks ...string) []string {
	var bad []string
	inv, mis := false, false
	first := ""
	for i, t := range toks {
		id, ok := split(t)
		if !ok {
			inv = true
		} else if i == 0 {
			first = id
		} else if same && id != first {
			mis = true
		}
	}
	if inv {
		bad = append(bad, "invalid")
	}
	if mis {
		bad = append(bad, "badid")
	}
	return bad
}

func opTokens(o *Op) (toks []string, same bool) {
	switch o.Op {
	case "create":
		return []string{string(o.T), string(o.R)}, true
	case "refresh":
		return []string{string(o.T), string(o.R), string(o.NT), string(o.NR)}, true
	case "destroy", "clear", "close":
		return nil, false
	}
	return []string{string(o.T)}, false
}

type minput struct {
	r   *Rec
	amb bool // no answer, or a fault: may or may not have taken effect
	inf bool // ... at any time from then on
}

// outcome is one way an operation may go.
type outcome struct {
	res  string
	vals []string
	keys []string
	st   *mstate
}

// outcomes lists all the ways op may go in state m.
func (m *mstate) outcomes(r *Rec, mo modelOpts) []outcome {
	out := m.outcomes1(r, mo)
	if r.Expect {
		out = append(out, outcome{res: "other", st: m})
	}
	return out
}

func (m *mstate) outcomes1(r *Rec, mo modelOpts) []outcome {
	o := &r.Op
	from, to := r.TCall, r.TRet
	if r.Ret == 0 {
		to = 1 << 62
	}
	one := func(res string) []outcome { return []outcome{{res: res, st: m}} }
	toks, same := opTokens(o)
	if bad := badTokens(same, toks...); len(bad) > 0 {
		var out []outcome
		for _, b := range bad {
			out = append(out, outcome{res: b, st: m})
		}
		return out
	}
	life := func(x *msess) {
		t := to
		if r.Ret == 0 {
			t = r.TDied
		}
		x.aLo, x.aHi = later(from, r.Cfg.Access), later(t, r.Cfg.Access)
		x.rLo, x.rHi = later(from, r.Cfg.Refresh), later(t, r.Cfg.Refresh)
	}
	switch o.Op {
	case "create":
		id, _ := split(string(o.T))
		x := &msess{token: string(o.T), refresh: string(o.R), id: id, data: map[string]string{}}
		life(x)
		for i, k := range o.Keys {
			if !mo.statusOnly {
				x.data[string(k)] = string(o.Vals[i])
			}
		}
		base := []*mstate{m}
		if old := m.find(string(o.T)); old != nil {
			base[0] = m.without(old)
		}
		if mo.cap && r.Cfg.MaxSize > 0 {
			base = base[0].evict(r.Cfg.MaxSize, from, to, mo.keepDead)
		}
		var out []outcome
		for _, b := range base {
			y := *x
			out = append(out, outcome{res: "ok", st: b.with(&y)})
		}
		return out
	case "destroy":
		n := m
		for _, x := range m.s {
			if x.id == string(o.ID) {
				n = n.without(x)
			}
		}
		return []outcome{{res: "ok", st: n}}
	case "destroyt":
		if x := m.find(string(o.T)); x != nil {
			return []outcome{{res: "ok", st: m.without(x)}}
		}
		return one("ok")
	case "clear":
		return []outcome{{res: "ok", st: &mstate{next: m.next}}}
	}
	x := m.find(string(o.T))
	if x == nil {
		return one("notexists")
	}
	var out []outcome
	if x.dead(to) {
		out = append(out, outcome{res: "notexists", st: m})
	}
	if o.Op == "refresh" {
		if from < x.rHi {
			if x.refresh != string(o.R) {
				return append(out, outcome{res: "badrefresh", st: m})
			}
			n := m.without(x)
			if y := n.find(string(o.NT)); y != nil {
				n = n.without(y)
			}
			z := &msess{token: string(o.NT), refresh: string(o.NR), id: x.id, data: x.data}
			life(z)
			out = append(out, outcome{res: "ok", st: n.with(z)})
		}
		return out
	}
	if x.expired(from, to) {
		out = append(out, outcome{res: "expired", st: m})
	}
	if !x.alive(from) {
		return out
	}
	switch o.Op {
	case "check":
		out = append(out, outcome{res: "ok", st: m})
	case "put":
		if len(o.Keys) == 0 || mo.statusOnly {
			out = append(out, outcome{res: "ok", st: m})
			break
		}
		y := *x
		y.data = make(map[string]string, len(x.data)+len(o.Keys))
		for k, v := range x.data {
			y.data[k] = v
		}
		for i, k := range o.Keys {
			y.data[string(k)] = string(o.Vals[i])
		}
		out = append(out, outcome{res: "ok", st: m.replace(x, &y)})
	case "del":
		y := *x
		y.data = make(map[string]string, len(x.data))
		for k, v := range x.data {
			y.data[k] = v
		}
		for _, k := range o.Keys {
			delete(y.data, string(k))
		}
		out = append(out, outcome{res: "ok", st: m.replace(x, &y)})
	case "get":
		vals := make([]string, len(o.Keys))
		for i, k := range o.Keys {
			if v, ok := x.data[string(k)]; ok {
				vals[i] = "+" + v
			} else {
				vals[i] = "-"
			}
		}
		out = append(out, outcome{res: "ok", st: m, vals: vals})
	case "keys":
		var ks []string
		for k := range x.data {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		out = append(out, outcome{res: "ok", st: m, keys: ks})
	default:
		panic("model: unknown operation " + o.Op)
	}
	return out
}

// evict makes room for one session: the oldest go until fewer than max are left.
// A dead session goes first; one that may be dead may or may not count.
func (m *mstate) evict(max int, from, to time.Duration, keepDead bool) []*mstate {
	order := append([]*msess(nil), m.s...)
	sort.Slice(order, func(i, j int) bool { return order[i].born < order[j].born })
	n := m
	maybe := 0
	live := 0
	for _, x := range order {
		switch {
		case from >= x.rHi:
			if !keepDead {
				n = n.without(x)
			}
		case x.dead(to):
			maybe++
			live++
		default:
			live++
		}
	}
	pop := func(s *mstate, c int) *mstate {
		for _, x := range order {
			if c <= 0 {
				break
			}
			if s.find(x.token) == x && from < x.rHi {
				s = s.without(x)
				c--
			}
		}
		return s
	}
	var out []*mstate
	for c := live - maybe; c <= live; c++ {
		k := c - max + 1
		if k < 0 {
			k = 0
		}
		out = append(out, pop(n, k))
	}
	return out
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (o *outcome) matches(r *Rec, mo modelOpts) bool {
	if o.res != r.Res {
		return false
	}
	if mo.statusOnly || r.Res != "ok" {
		return true
	}
	switch r.Op.Op {
	case "get":
		if len(r.Op.Keys) == 0 {
			return len(r.Vals) == 0
		}
		return sameStrings(o.vals, r.Vals)
	case "keys":
		ks := append([]string(nil), r.Keys...)
		sort.Strings(ks)
		return sameStrings(o.keys, ks)
	}
	return true
}

func model(mo modelOpts, init *mstate) porcupine.Model {
	nm := porcupine.NondeterministicModel{
		Init: func() []interface{} { return []interface{}{init} },
		Step: func(state, input, output interface{}) []interface{} {
			m, in := state.(*mstate), input.(minput)
			r := in.r
			var next []interface{}
			if in.amb {
				// one that may take effect at any time has had none when it
				// comes last, so it need not be tried as nothing elsewhere
				if !in.inf {
					next = append(next, m)
				}
				for _, o := range m.outcomes(r, mo) {
					if o.st != m {
						next = append(next, o.st)
					}
				}
				if len(next) == 0 {
					next = append(next, m)
				}
				return next
			}
			if r.Res == "closed" {
				return []interface{}{m}
			}
			for _, o := range m.outcomes(r, mo) {
				if o.matches(r, mo) {
					next = append(next, o.st)
				}
			}
			return next
		},
		Equal: func(a, b interface{}) bool { return a.(*mstate).equal(b.(*mstate)) },
	}
	return nm.ToModel()
}

// partitions splits a history into the operations of each lineage: the tokens
// connected by refreshes.  Operations on a whole id or store appear in all they
// touch.
func partitions(hist []*Rec, whole bool) (parts [][]*Rec, names []string) {
	bySpace := map[string][]*Rec{}
	var spaces []string
	for _, r := range hist {
		if _, ok := bySpace[r.Space]; !ok {
			spaces = append(spaces, r.Space)
		}
		bySpace[r.Space] = append(bySpace[r.Space], r)
	}
	sort.Strings(spaces)
	for _, sp := range spaces {
		h := bySpace[sp]
		if whole {
			parts, names = append(parts, h), append(names, fmt.Sprintf("store %q", sp))
			continue
		}
		parent := map[string]string{}
		var find func(string) string
		find = func(s string) string {
			p, ok := parent[s]
			if !ok || p == s {
				parent[s] = s
				return s
			}
			q := find(p)
			parent[s] = q
			return q
		}
		for _, r := range h {
			toks, same := opTokens(&r.Op)
			if len(toks) == 0 {
				continue
			}
			find(string(r.Op.T))
			if r.Op.Op == "refresh" && len(badTokens(same, toks...)) == 0 {
				parent[find(string(r.Op.T))] = find(string(r.Op.NT))
			}
		}
		roots := map[string][]string{}
		for t := range parent {
			r := find(t)
			roots[r] = append(roots[r], t)
		}
		var rs []string
		for r := range roots {
			sort.Strings(roots[r])
			rs = append(rs, r)
		}
		sort.Strings(rs)
		for _, root := range rs {
			ids := map[string]bool{}
			for _, t := range roots[root] {
				if id, ok := split(t); ok {
					ids[id] = true
				}
			}
			var part []*Rec
			for _, r := range h {
				switch r.Op.Op {
				case "destroy":
					if ids[string(r.Op.ID)] {
						part = append(part, r)
					}
				case "clear":
					part = append(part, r)
				default:
					if find(string(r.Op.T)) == root {
						part = append(part, r)
					}
				}
			}
			parts, names = append(parts, part), append(names, fmt.Sprintf("session %q in %q", roots[root], sp))
		}
	}
	return
}

// linearizable checks a history against the model and describes the first
// partition that has no explanation.
func linearizable(hist []*Rec, mo modelOpts, openEnded bool) (bad string, inconclusive int) {
	var ops []*Rec
	for _, r := range hist {
		switch r.Op.Op {
		case "create", "destroy", "destroyt", "check", "put", "get", "keys", "del", "refresh", "clear":
			ops = append(ops, r)
		}
	}
	parts, names := partitions(ops, mo.cap || mo.whole)
	for pi, part := range parts {
		var h []porcupine.Operation
		for _, r := range part {
			in := minput{r: r}
			ret := r.Ret
			if r.Ret == 0 || (r.Res == "other" && !r.Expect) {
				in.amb = true
				if !mutates(&r.Op) {
					continue
				}
				if r.Ret == 0 {
					ret = r.CrashSeq
				}
				if openEnded {
					ret = 1 << 60
				}
				in.inf = ret == 1<<60
			} else if r.Res == "closed" {
				if !openEnded || !mutates(&r.Op) {
					continue
				}
				// the client library gave up: the command may have been executed
				in.amb, in.inf = true, true
				ret = 1 << 60
			}
			h = append(h, porcupine.Operation{ClientId: r.Client, Input: in, Call: r.Call, Output: r, Return: ret})
			h = sweeps(h, part, r, in, ret)
		}
		res := porcupine.CheckOperationsTimeout(model(mo, &mstate{}), h, 5*time.Second)
		switch res {
		case porcupine.Unknown:
			inconclusive++
		case porcupine.Illegal:
			return explain(part, names[pi], mo, openEnded), inconclusive
		}
	}
	return "", inconclusive
}

// sweeps adds what else a destroy of an id on redis may do. It ends the sessions
// it finds, until it finds none, so while it runs, or when it fails, it may have
// ended some and not others that were created after it began, and it may end a
// session a second time when its token was created again.
func sweeps(h []porcupine.Operation, part []*Rec, r *Rec, in minput, ret int64) []porcupine.Operation {
	if r.Op.Op != "destroy" || r.Cfg == nil || r.Cfg.Backend != "redis" {
		return h
	}
	makes := func(c *Rec) string {
		switch c.Op.Op {
		case "create":
			return string(c.Op.T)
		case "refresh":
			return string(c.Op.NT)
		}
		return ""
	}
	// only sessions that were created one by one exist at the same time
	creates, during := 0, false
	for _, c := range part {
		if c.Op.Op == "create" && c.Call < ret {
			creates++
		}
		if makes(c) != "" && c.Call < ret && (c.Ret == 0 || c.Ret > r.Call) {
			during = true
		}
	}
	if creates < 2 || !during {
		return h
	}
	in.amb = true
	seen := map[string]bool{}
	for _, c := range part {
		t := makes(c)
		if id, ok := split(t); !ok || id != string(r.Op.ID) || c.Call >= ret {
			continue
		}
		if seen[t] && c.Ret != 0 && c.Ret < r.Call {
			continue // it was there when the destroy began, if at all
		}
		seen[t] = true
		x := *r
		x.Op = Op{Op: "destroyt", T: Str(t)}
		in.r = &x
		h = append(h, porcupine.Operation{ClientId: r.Client, Input: in, Call: r.Call, Output: &x, Return: ret})
	}
	return h
}

func mutates(o *Op) bool {
	switch o.Op {
	case "check", "get", "keys":
		return false
	}
	return true
}

// explain finds the shortest prefix of the history that has no explanation.
func explain(part []*Rec, name string, mo modelOpts, openEnded bool) string {
	// operations ordered by return; cut at each
	byRet := append([]*Rec(nil), part...)
	end := func(r *Rec) int64 {
		if r.Ret == 0 {
			return 1 << 60
		}
		return r.Ret
	}
	sort.SliceStable(byRet, func(i, j int) bool { return end(byRet[i]) < end(byRet[j]) })
	var culprit *Rec
	for n := 1; n <= len(byRet); n++ {
		last := byRet[n-1]
		if last.Ret == 0 {
			break
		}
		var h []porcupine.Operation
		for _, r := range part {
			if r.Call > last.Ret {
				continue
			}
			in := minput{r: r}
			ret := r.Ret
			if r.Ret == 0 || r.Ret > last.Ret || (r.Res == "other" && !r.Expect) || r.Res == "closed" {
				if !mutates(&r.Op) || (r.Res == "closed" && !openEnded) {
					continue
				}
				in.amb = true
				switch {
				case openEnded || (r.Ret == 0 && r.CrashSeq == 0) || r.Ret > last.Ret:
					ret = 1 << 60
				case r.Ret == 0:
					ret = r.CrashSeq
				}
				in.inf = ret == 1<<60
			}
			h = append(h, porcupine.Operation{ClientId: r.Client, Input: in, Call: r.Call, Output: r, Return: ret})
			h = sweeps(h, part, r, in, ret)
		}
		if porcupine.CheckOperationsTimeout(model(mo, &mstate{}), h, 5*time.Second) == porcupine.Illegal {
			culprit = last
			break
		}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "no order of the operations on %s explains what they returned", name)
	if culprit != nil {
		fmt.Fprintf(&sb, "; the first answer without an explanation is %s", culprit)
	}
	return sb.String()
}
