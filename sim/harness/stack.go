package harness

import (
	"context"
	"encoding/base64"
	"errors"
	"strings"

	"github.com/powerpuffpenguin/sessionid"

	"verifsim/simrt"
)

// In some runs the clients do not call the provider but go through the whole
// public interface: a Manager over the provider, and the Sessions it makes. The
// plan then knows tokens by names of its own; names are bound to the tokens the
// manager makes up when these reach the provider, so that the client of a
// process that dies in the call, or of a call that fails, still knows them.

type stack struct {
	real    map[string]string // name in the plan -> token
	pending map[*simrt.Task]*[4]string
}

// through is the provider that clients see.
type through struct {
	w *world
	m *sessionid.LocalManager
	p sessionid.Provider
}

// below is the provider that the manager sees.
type below struct {
	sessionid.Provider
	w *world
}

var keyOfStack = []byte("the key of the managers of a stack")

func (w *world) throughManager(p sessionid.Provider) sessionid.Provider {
	if w.stack == nil {
		w.stack = &stack{real: map[string]string{}, pending: map[*simrt.Task]*[4]string{}}
	}
	m := sessionid.NewManager(sessionid.WithProvider(below{p, w}), sessionid.WithCoder(rawCoder{}), sessionid.WithKey(keyOfStack), sessionid.WithMethod(signers[1].method))
	return &through{w, m, p}
}

func (s *stack) bind(name, token string) {
	if _, ok := s.real[name]; !ok {
		s.real[name] = own(token)
	}
}

// expect tells which names the next tokens that this task makes up will have.
func (s *stack) expect(access, refresh string) (names *[4]string, done func()) {
	simrt.RaceQuiet()
	defer simrt.RaceHeard()
	t := simrt.Self()
	names = &[4]string{access, refresh}
	s.pending[t] = names
	return names, func() {
		simrt.RaceQuiet()
		defer simrt.RaceHeard()
		delete(s.pending, t)
	}
}

func (s *stack) made(access, refresh string) {
	simrt.RaceQuiet()
	defer simrt.RaceHeard()
	if n := s.pending[simrt.Self()]; n != nil {
		n[2], n[3] = own(access), own(refresh)
		s.bind(n[0], access)
		s.bind(n[1], refresh)
	}
}

func (b below) Create(ctx context.Context, access, refresh string, pair []sessionid.PairBytes) error {
	b.w.stack.made(access, refresh)
	return b.Provider.Create(ctx, access, refresh, pair)
}

func (b below) Refresh(ctx context.Context, access, refresh, newAccess, newRefresh string) error {
	b.w.stack.made(newAccess, newRefresh)
	return b.Provider.Refresh(ctx, access, refresh, newAccess, newRefresh)
}

// token is the token of that name; one that nobody was given if there is none yet.
func (s *stack) token(name string) string {
	simrt.RaceQuiet()
	t, ok := s.real[name]
	simrt.RaceHeard()
	if ok {
		return t
	}
	id, _ := split(name)
	a, _, e := sessionid.CreateToken(signers[1].method, keyOfStack, base64.RawURLEncoding.EncodeToString([]byte(id)))
	if e != nil {
		panic(e)
	}
	return a
}

// held translates names of the plan to what the store may hold.
func (s *stack) held(names map[string]bool) {
	var more []string
	for n := range names {
		if t, ok := s.real[n]; ok {
			more = append(more, t)
		} else if !strings.Contains(n, ".") {
			more = append(more, base64.RawURLEncoding.EncodeToString([]byte(n)))
		}
	}
	for _, n := range more {
		names[n] = true
	}
}

func (t *through) session(ctx context.Context, name string) (*sessionid.Session, error) {
	return t.m.Get(ctx, t.w.stack.token(name))
}

func asPairs(pair []sessionid.PairBytes) (ps []sessionid.Pair) {
	for _, p := range pair {
		ps = append(ps, sessionid.Pair{Key: p.Key, Value: string(p.Value)})
	}
	return
}

func (t *through) Create(ctx context.Context, access, refresh string, pair []sessionid.PairBytes) error {
	made, done := t.w.stack.expect(access, refresh)
	defer done()
	id, _ := split(access)
	s, r, e := t.m.Create(ctx, id, asPairs(pair)...)
	if e == nil && (s == nil || s.Token() != made[2] || r != made[3]) {
		t.w.violate("token", "Manager.Create(%q) returned other tokens than those it created the session with", id)
	}
	return e
}

func (t *through) Destroy(ctx context.Context, id string) error { return t.m.Destroy(ctx, id) }

func (t *through) DestroyByToken(ctx context.Context, token string) error {
	if len(token)%2 == 0 {
		s, e := t.session(ctx, token)
		if e != nil {
			return e
		}
		return s.Destroy(ctx)
	}
	return t.m.DestroyByToken(ctx, t.w.stack.token(token))
}

func (t *through) Check(ctx context.Context, token string) error {
	s, e := t.session(ctx, token)
	if e != nil {
		return e
	}
	return s.Check(ctx)
}

func (t *through) Put(ctx context.Context, token string, pair []sessionid.PairBytes) error {
	s, e := t.session(ctx, token)
	if e != nil {
		return e
	}
	if len(pair) == 0 { // a Session has nothing to do
		return t.p.Put(ctx, t.w.stack.token(token), nil)
	}
	return s.Put(ctx, asPairs(pair)...)
}

func (t *through) Get(ctx context.Context, token string, keys []string) (vals []sessionid.Value, e error) {
	s, e := t.session(ctx, token)
	if e != nil {
		return nil, e
	}
	if len(keys) == 0 {
		return t.p.Get(ctx, t.w.stack.token(token), nil)
	}
	if len(keys) > 1 {
		if e = s.Prepare(ctx, keys...); e != nil {
			return nil, e
		}
	}
	for _, k := range keys {
		var v string
		e = s.Get(ctx, k, &v)
		switch {
		case e == nil:
			vals = append(vals, sessionid.Value{Exists: true, Bytes: []byte(v)})
		case errors.Is(e, sessionid.ErrKeyNotExists):
			vals = append(vals, sessionid.Value{})
		default:
			return nil, e
		}
	}
	return vals, nil
}

func (t *through) Keys(ctx context.Context, token string) ([]string, error) {
	s, e := t.session(ctx, token)
	if e != nil {
		return nil, e
	}
	return s.Keys(ctx)
}

func (t *through) Delete(ctx context.Context, token string, keys []string) error {
	if len(keys) == 0 {
		return t.p.Delete(ctx, t.w.stack.token(token), nil)
	}
	s, e := t.session(ctx, token)
	if e != nil {
		return e
	}
	return s.Delete(ctx, s.Token(), keys...)
}

func (t *through) Refresh(ctx context.Context, access, refresh, newAccess, newRefresh string) error {
	st := t.w.stack
	made, done := st.expect(newAccess, newRefresh)
	defer done()
	na, nr, e := t.m.Refresh(ctx, st.token(access), st.token(refresh))
	if e == nil && (na != made[2] || nr != made[3]) {
		t.w.violate("token", "Manager.Refresh of %q returned other tokens than those it gave the session", st.token(access))
	}
	return e
}

func (t *through) Close() error { return t.p.Close() }

// throughable reports whether the plan can go through a manager, and adapts it:
// a manager never makes the same token twice.
func (p *Plan) throughable() bool {
	given := map[Str]bool{}
	ok := true
	lists := [][]*Op{}
	var edits []func()
	for i := range p.Phases {
		ph := &p.Phases[i]
		for _, l := range append(append([][]Op{ph.Setup}, ph.Clients...), ph.Final) {
			var x []*Op
			for j := range l {
				x = append(x, &l[j])
			}
			lists = append(lists, x)
		}
	}
	small := func(o *Op) bool {
		for _, t := range []Str{o.T, o.R, o.NT, o.NR, o.ID} {
			if len(t) > 1000 {
				return false
			}
		}
		for _, t := range []Str{o.T, o.R, o.NT, o.NR} {
			if _, good := split(string(t)); t != "" && !good {
				return false
			}
		}
		return true
	}
	for _, l := range lists {
		for _, o := range l {
			ok = ok && small(o)
			switch o.Op {
			case "create":
				if given[o.T] || given[o.R] || o.T == o.R {
					ok = ok && p.Kind != "seq" && p.Kind != "restart" // these count on it
					o := o
					edits = append(edits, func() { *o = Op{Op: "check", T: o.T, D: o.D, At: o.At, Inst: o.Inst, Ctx: o.Ctx} })
					continue
				}
				given[o.T], given[o.R] = true, true
				a, _ := split(string(o.T))
				b, _ := split(string(o.R))
				ok = ok && a == b && a != ""
			case "refresh":
				a, _ := split(string(o.T))
				b, _ := split(string(o.R))
				n1, _ := split(string(o.NT))
				n2, _ := split(string(o.NR))
				ok = ok && a == b && a == n1 && a == n2
				if o.NT == o.T && strings.HasSuffix(string(o.R), ".wrong.refresh") { // asks only
					continue
				}
				for _, n := range []*Str{&o.NT, &o.NR} {
					ok = ok && (!given[*n] || strings.Contains(string(*n), ".never."))
					name := *n
					for given[name] {
						name += "~"
					}
					given[name] = true
					n := n
					edits = append(edits, func() { *n = name })
				}
			case "put", "get", "del", "keys", "check", "destroy", "destroyt", "clear", "close", "sleep", "residue", "open2":
			default:
				ok = false
			}
		}
	}
	if ok {
		for _, e := range edits {
			e()
		}
	}
	return ok
}
