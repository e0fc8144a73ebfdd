package harness

import (
	"bytes"
	"context"
	"encoding/gob"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/powerpuffpenguin/sessionid"
	"github.com/powerpuffpenguin/sessionid/cryptoer"
)

// flaky is the provider that session handles see: the real one, except for the
// failures of the current operation.
type flaky struct {
	sessionid.Provider
	h *control
}

// control says how the provider fails, and what it was asked.
type control struct {
	fault   string
	hit     bool
	created string // the token of the last Create
	renewed string // the last new token of a Refresh
}

var errInjected = errors.New("injected failure of the provider")

// handle is a Session with what its user may expect of it.
type handle struct {
	*control
	s     *sessionid.Session
	in    *inst
	token string
	view  map[string][]*string // what Get may return from its cache; nil: absent
	m     *sessionid.LocalManager
	renew string // the refresh token
}

type handles struct {
	hs    map[string]*handle
	token []string
}

func (f *flaky) fail(apply func() error) error {
	switch f.h.fault {
	case "before":
		f.h.hit = true
		return errInjected
	case "after":
		f.h.hit = true
		apply()
		return errInjected
	}
	return apply()
}

func (f *flaky) Put(ctx context.Context, token string, pair []sessionid.PairBytes) error {
	return f.fail(func() error { return f.Provider.Put(ctx, token, pair) })
}
func (f *flaky) Create(ctx context.Context, access, refresh string, pair []sessionid.PairBytes) error {
	f.h.created = access
	return f.fail(func() error { return f.Provider.Create(ctx, access, refresh, pair) })
}
func (f *flaky) Refresh(ctx context.Context, access, refresh, newAccess, newRefresh string) error {
	f.h.renewed = newAccess
	return f.fail(func() error { return f.Provider.Refresh(ctx, access, refresh, newAccess, newRefresh) })
}
func (f *flaky) Destroy(ctx context.Context, id string) error {
	return f.fail(func() error { return f.Provider.Destroy(ctx, id) })
}
func (f *flaky) Delete(ctx context.Context, token string, keys []string) error {
	return f.fail(func() error { return f.Provider.Delete(ctx, token, keys) })
}
func (f *flaky) Check(ctx context.Context, token string) error {
	return f.fail(func() error { return f.Provider.Check(ctx, token) })
}
func (f *flaky) DestroyByToken(ctx context.Context, token string) error {
	return f.fail(func() error { return f.Provider.DestroyByToken(ctx, token) })
}
func (f *flaky) Keys(ctx context.Context, token string) (keys []string, e error) {
	e = f.fail(func() (e error) { keys, e = f.Provider.Keys(ctx, token); return })
	return
}
func (f *flaky) Get(ctx context.Context, token string, keys []string) (vals []sessionid.Value, e error) {
	e = f.fail(func() (e error) { vals, e = f.Provider.Get(ctx, token, keys); return })
	switch f.h.fault {
	case "after", "before": // a provider may leave anything in its results
		vals = nil
		for range keys {
			vals = append(vals, sessionid.Value{Exists: true, Bytes: []byte("\x03\x04\x00\x02garbage")})
		}
	case "short":
		if e == nil && len(vals) > 0 {
			f.h.hit = true
			vals = vals[:len(vals)-1]
		}
	}
	return
}

// ---- values ----

type structA struct {
	X int
	Y string
	L []string
}
type structB struct {
	X int64
	L []string
	Z string
}
type myInt int

func coderOf(n int) sessionid.Coder {
	switch n {
	case 1:
		return sessionid.JSONCoder{}
	case 2:
		return sessionid.XMLCoder{}
	}
	return sessionid.GOBCoder{}
}

// plain is the encoding a coder stands for, straight from the standard library.
type plain struct{ n int }

func (p plain) Encode(v interface{}) ([]byte, error) {
	switch p.n {
	case 1:
		return json.Marshal(v)
	case 2:
		return xml.Marshal(v)
	}
	var b bytes.Buffer
	e := gob.NewEncoder(&b).Encode(v)
	return b.Bytes(), e
}
func (p plain) Decode(b []byte, v interface{}) error {
	switch p.n {
	case 1:
		return json.Unmarshal(b, v)
	case 2:
		return xml.Unmarshal(b, v)
	}
	return gob.NewDecoder(bytes.NewReader(b)).Decode(v)
}

// holds reports whether stored is what the coder makes of the value of spec:
// decoding it gives that value back.
func (w *world) holds(spec string, stored []byte) bool {
	n := w.p.Opts["coder"]
	targets := []string{kindTarget(spec)}
	if n == 1 {
		targets = append(targets, "any:0")
	}
	for _, t := range targets {
		want, failed := expectDecode(plain{n}, mustEncode(plain{n}, mkValue(spec)), t)
		got, gfailed := expectDecode(coderOf(n), stored, t)
		if failed != gfailed || len(want) != len(got) || len(want) > 0 && !reflect.DeepEqual(want[0], got[0]) {
			return false
		}
	}
	return true
}

var valueKinds = []string{"int", "str", "bytes", "strs", "map", "A", "B", "my", "ints", "int64", "f64", "bool", "arr", "time", "deep", "ptr", "bad"}
var targetKinds = []string{"int", "str", "bytes", "strs", "map", "A", "B", "my", "ints", "int64", "f64", "bool", "arr", "time", "deep", "any", "nil", "val", "pp"}

// mkValue makes the value a spec like "A:7" stands for; the same each time.
func mkValue(spec string) interface{} {
	k, ns, _ := strings.Cut(spec, ":")
	n, _ := strconv.Atoi(ns)
	s := "s" + ns
	switch {
	case n >= 1000:
		s = strings.Repeat(s, 40)
	case n >= 500:
		s = strings.Repeat(s, 400)
	case n%11 == 7:
		s += "\u00e9<&\">\u2028\U0001f600\t "
	}
	var list []string
	for i := 0; i < n%4; i++ {
		list = append(list, s+string(rune('a'+i)))
	}
	switch k {
	case "int":
		if n%9 == 8 {
			return -n
		}
		return n
	case "time":
		return time.Unix(int64(n)*1e6, int64(n)).UTC()
	case "deep":
		return map[string][]structA{s: {{X: -n, Y: s}, {L: list}}, "": nil}
	case "str":
		return s
	case "bytes":
		return []byte(s + s)
	case "strs":
		return append([]string{}, list...)
	case "map":
		return map[string]int{s: n}
	case "A":
		if n%5 == 0 {
			return structA{}
		}
		return structA{X: n, Y: s, L: list}
	case "B":
		return structB{X: int64(n), L: list, Z: s}
	case "my":
		return myInt(n)
	case "ints":
		return []int{n, n + 1, n + 2}[:1+n%3]
	case "int64":
		return int64(n)<<20 | int64(n)<<53
	case "f64":
		return float64(n) + 0.5
	case "bool":
		return n%2 == 1
	case "arr":
		return [3]int{n, 0, n}
	case "ptr":
		return &structA{X: n, Y: s}
	case "bad":
		return make(chan int)
	}
	panic("value " + spec)
}

// mkTarget makes a pointer to decode into: "A:0" an empty one, else prefilled.
func mkTarget(spec string) interface{} {
	k, ns, _ := strings.Cut(spec, ":")
	switch k {
	case "any":
		var x interface{}
		return &x
	case "nil":
		return nil
	case "val":
		return 5
	case "pp":
		p := new(int)
		return &p
	}
	t := reflect.TypeOf(mkValue(k + ":1"))
	p := reflect.New(t)
	if ns != "0" {
		p.Elem().Set(reflect.ValueOf(mkValue(spec)))
	}
	return p.Interface()
}

// mutate changes everything reachable from a target.
func mutate(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			mutate(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			mutate(v.Field(i))
		}
	case reflect.Slice:
		full := v
		if v.CanSet() || true {
			full = v.Slice(0, v.Cap())
		}
		for i := 0; i < full.Len(); i++ {
			mutate(full.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			mutate(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
		}
		if v.Type().Key().Kind() == reflect.String && !v.IsNil() {
			v.SetMapIndex(reflect.ValueOf("mutated").Convert(v.Type().Key()), reflect.Zero(v.Type().Elem()))
		}
	default:
		if !v.CanSet() {
			return
		}
		switch v.Kind() {
		case reflect.Int, reflect.Int64:
			v.SetInt(v.Int() + 1000)
		case reflect.String:
			v.SetString(v.String() + "mutated")
		case reflect.Uint8:
			v.SetUint('m')
		case reflect.Float64:
			v.SetFloat(-1)
		case reflect.Bool:
			v.SetBool(!v.Bool())
		}
	}
}

// expectDecode reports what decoding b into the target of spec gives: with the
// target's old content, and afresh.
func expectDecode(c sessionid.Coder, b []byte, spec string) (outs []interface{}, failed bool) {
	k, _, _ := strings.Cut(spec, ":")
	specs := []string{spec}
	if k != "any" {
		specs = append(specs, k+":0")
	}
	for _, sp := range specs {
		t := mkTarget(sp)
		if e := c.Decode(append([]byte(nil), b...), t); e != nil {
			failed = true
			continue
		}
		outs = append(outs, t)
	}
	return
}

// ---- operations ----

func (w *world) current(h *handle, key string) (vals *string, e error) {
	ctx, end := w.ctx()
	defer end()
	vs, e := h.in.prov.Get(ctx, h.token, []string{key})
	if e != nil {
		return nil, e
	}
	if len(vs) == 1 && vs[0].Exists {
		s := string(vs[0].Bytes)
		return &s, nil
	}
	return nil, nil
}

func showVal(p *string) string {
	if p == nil {
		return "absent"
	}
	return strconv.Quote(*p)
}

func sameVal(a, b *string) bool {
	return (a == nil) == (b == nil) && (a == nil || *a == *b)
}

func (w *world) handle(in *inst, o *Op) *handle {
	if w.hnd == nil {
		w.hnd = &handles{hs: map[string]*handle{}}
	}
	name := fmt.Sprintf("%s#%d", o.T, o.N)
	h := w.hnd.hs[name]
	if h == nil && strings.HasPrefix(string(o.T), "#") {
		return nil // the manager has not made it
	}
	if h == nil {
		h = &handle{control: &control{}, in: in, token: string(o.T), view: map[string][]*string{}}
		s, e := sessionid.NewSession(string(o.T), &flaky{in.prov, h.control}, coderOf(w.p.Opts["coder"]))
		if e != nil {
			w.violate("session", "NewSession(%q) failed: %v", o.T, e)
			return nil
		}
		h.s = s
		w.hnd.hs[name] = h
	}
	return h
}

func statusErr(e error) bool {
	switch classify(e) {
	case "expired", "notexists", "closed", "invalid":
		return true
	}
	return false
}

// managed makes a session through a manager, with two handles on it.
func (w *world) managed(in *inst, o *Op, r *Rec) {
	ctx, end := w.ctx()
	defer end()
	coder := coderOf(w.p.Opts["coder"])
	bad := func(format string, a ...interface{}) {
		w.violate("session", "%s: %s (last operations: %s)", r, fmt.Sprintf(format, a...), w.lastOps(12))
	}
	if w.hnd == nil {
		w.hnd = &handles{hs: map[string]*handle{}}
	}
	c := &control{fault: string(o.R)}
	defer func() { c.fault = "" }()
	m := sessionid.NewManager(sessionid.WithProvider(&flaky{in.prov, c}), sessionid.WithCoder(coder))
	var ps []sessionid.Pair
	var vals []interface{}
	unenc := false
	last := map[string]int{}
	for i := range o.Keys {
		v := mkValue(string(o.Vals[i]))
		vals = append(vals, v)
		if _, e := coder.Encode(mkValue(string(o.Vals[i]))); e != nil {
			unenc = true
		}
		ps = append(ps, sessionid.Pair{Key: string(o.Keys[i]), Value: v})
		last[string(o.Keys[i])] = i
	}
	s, refresh, e := m.Create(ctx, string(o.ID), ps...)
	for i := range vals {
		if rv := reflect.ValueOf(vals[i]); rv.Kind() == reflect.Slice || rv.Kind() == reflect.Map || rv.Kind() == reflect.Ptr {
			mutate(rv)
		}
	}
	c.fault = ""
	if e != nil {
		if unenc && !c.hit && c.created != "" && in.prov.Check(ctx, c.created) == nil {
			bad("failed with %v, but there is a session", e)
		}
		if !unenc && !c.hit {
			bad("failed with %v", e)
		}
		return
	}
	switch {
	case c.hit:
		bad("succeeded although the provider failed")
		return
	case unenc:
		bad("succeeded with a value that cannot be encoded")
		return
	case s == nil:
		bad("returned neither a session nor an error")
		return
	}
	token := s.Token()
	var names []string
	for k, i := range last {
		names = append(names, k)
		vs, e := in.prov.Get(ctx, token, []string{k})
		if e != nil || len(vs) != 1 || !vs[0].Exists {
			bad("succeeded, but the provider has no value for %q (%v)", k, e)
			continue
		}
		if !w.holds(string(o.Vals[i]), vs[0].Bytes) {
			bad("succeeded, but the provider holds %q for %q, which is not an encoding of %v", vs[0].Bytes, k, o.Vals[i])
		}
	}
	if ks, e := in.prov.Keys(ctx, token); e != nil || !sameSet(ks, names) {
		bad("succeeded, but the provider lists the keys %q (%v)", ks, e)
	}
	w.managedHandles(in, o, m, c, s, refresh, bad)
}

// managedHandles makes s and another session of its token the handles of o.T.
func (w *world) managedHandles(in *inst, o *Op, m *sessionid.LocalManager, c *control, s *sessionid.Session, refresh string, bad func(string, ...interface{})) {
	token := s.Token()
	ctx, end := w.ctx()
	defer end()
	s2, e := m.Get(ctx, token)
	if e != nil || s2 == nil || s2.Token() != token || s2.ID() != s.ID() {
		bad("the manager does not give its own token %q (%v)", token, e)
		return
	}
	for i, x := range []*sessionid.Session{s, s2} {
		w.hnd.hs[fmt.Sprintf("%s#%d", o.T, i)] = &handle{control: c, s: x, in: in, token: token, view: map[string][]*string{}, m: m, renew: refresh}
	}
}

// manage calls the manager that made the session of h.
func (w *world) manage(in *inst, h *handle, o *Op, bad func(string, ...interface{})) {
	ctx, end := w.ctx()
	defer end()
	be := in.prov.Check(ctx, h.token)
	id, _ := split(h.token)
	raw, _ := cryptoer.DecodeSegment(id)
	switch o.Op {
	case "h.mrefresh":
		na, nr, e := h.m.Refresh(ctx, h.token, h.renew)
		h.fault = ""
		if e != nil {
			if h.hit {
				h.renew = "" // whichever it is now
			} else if be == nil && h.renew != "" && in.prov.Check(ctx, h.token) == nil {
				bad("failed with %v", e)
			}
			return
		}
		if h.renew == "" {
			return
		}
		if na != h.renewed {
			bad("returned %q, the provider was given %q", na, h.renewed)
			return
		}
		if a, b := in.prov.Check(ctx, na), in.prov.Check(ctx, h.token); a != nil || b == nil {
			bad("succeeded; then the new token is %v, the old one %v", a, b)
			return
		}
		s, e := h.m.Get(ctx, na)
		if e != nil {
			bad("the manager does not know its own token: %v", e)
			return
		}
		w.managedHandles(in, o, h.m, h.control, s, nr, bad)
	case "h.mdestroy", "h.mdestroyt":
		var e error
		if o.Op == "h.mdestroy" {
			e = h.m.Destroy(ctx, string(raw))
		} else {
			e = h.m.DestroyByToken(ctx, h.token)
		}
		h.fault = ""
		if e == nil && in.prov.Check(ctx, h.token) == nil {
			bad("succeeded, but the session is alive")
		} else if e != nil && !h.hit {
			bad("failed with %v", e)
		}
	}
}

func (w *world) handleOp(in *inst, o *Op, r *Rec) error {
	ctx, end := w.ctx()
	defer end()
	if o.Op == "h.create" {
		w.managed(in, o, r)
		return nil
	}
	h := w.handle(in, o)
	if h == nil {
		return nil
	}
	coder := coderOf(w.p.Opts["coder"])
	h.fault, h.hit = string(o.R), false
	defer func() { h.fault = "" }()
	failing := func(e error) {
		if e == nil && h.hit {
			w.violate("session", "%s: succeeded although the provider failed", r)
		}
	}
	bad := func(format string, a ...interface{}) {
		w.violate("session", "%s: %s (last operations: %s)", r, fmt.Sprintf(format, a...), w.lastOps(12))
	}
	// direct looks at the real provider
	direct := func(keys []Str) (m map[string]*string, e error) {
		f := h.fault
		h.fault = ""
		defer func() { h.fault = f }()
		m = map[string]*string{}
		for _, k := range keys {
			v, err := w.current(h, string(k))
			if err != nil {
				return nil, err
			}
			m[string(k)] = v
		}
		return m, h.in.prov.Check(ctx, h.token)
	}
	okErr := func(e, b, a error) bool {
		return h.hit || statusErr(e) && (classify(b) == classify(e) || classify(a) == classify(e))
	}
	switch o.Op {
	case "h.put":
		before, be := direct(o.Keys)
		var ps []sessionid.Pair
		var vals []interface{}
		unenc := false
		for i := range o.Keys {
			v := mkValue(string(o.Vals[i]))
			vals = append(vals, v)
			if _, e := coder.Encode(mkValue(string(o.Vals[i]))); e != nil {
				unenc = true
			}
			ps = append(ps, sessionid.Pair{Key: string(o.Keys[i]), Value: v})
		}
		e := h.s.Put(ctx, ps...)
		failing(e)
		for i := range vals { // the caller reuses its values
			if rv := reflect.ValueOf(vals[i]); rv.Kind() == reflect.Slice || rv.Kind() == reflect.Map || rv.Kind() == reflect.Ptr {
				mutate(rv)
			}
			ps[i] = sessionid.Pair{Key: "changed", Value: "changed"}
		}
		after, ae := direct(o.Keys)
		if e != nil {
			if !unenc && !okErr(e, be, ae) {
				bad("failed with %v", e)
			}
			if unenc && !h.hit && be == nil && ae == nil {
				for k := range before {
					if !sameVal(before[k], after[k]) {
						bad("a failed Put changed %q from %s to %s", k, showVal(before[k]), showVal(after[k]))
					}
				}
			}
			return nil
		}
		if unenc {
			bad("succeeded with a value that cannot be encoded")
			return nil
		}
		if len(ps) == 0 {
			return nil
		}
		if ae != nil {
			if be == nil { // it died right afterwards
				for _, k := range o.Keys {
					delete(h.view, string(k))
				}
				return nil
			}
			bad("succeeded on a session that is %v", be)
			return nil
		}
		last := map[string]int{}
		for i, k := range o.Keys {
			last[string(k)] = i
		}
		for k, i := range last {
			v := after[k]
			if v == nil {
				bad("succeeded, but %q is absent from the provider", k)
				continue
			}
			// what is stored is the value
			if !w.holds(string(o.Vals[i]), []byte(*v)) {
				bad("succeeded, but the provider holds %q for %q, which is not an encoding of %v", *v, k, o.Vals[i])
			}
			h.view[k] = []*string{v}
		}
	case "h.get":
		key := string(o.Keys[0])
		spec := string(o.Vals[0])
		before, be := direct(o.Keys[:1])
		t := mkTarget(spec)
		e := h.s.Get(ctx, key, t)
		failing(e)
		after, ae := direct(o.Keys[:1])
		k0, _, _ := strings.Cut(spec, ":")
		if k0 == "nil" || k0 == "val" || k0 == "pp" {
			if e == nil {
				bad("succeeded without a usable pointer")
			}
			return nil
		}
		var cands []*string
		cands = append(cands, h.view[key]...)
		if be == nil {
			cands = append(cands, before[key])
		}
		if ae == nil {
			cands = append(cands, after[key])
		}
		var match []*string
		decodeFails := false
		for _, c := range cands {
			if c == nil {
				if errors.Is(e, sessionid.ErrKeyNotExists) {
					match = append(match, c)
				}
				continue
			}
			outs, failed := expectDecode(coder, []byte(*c), spec)
			decodeFails = decodeFails || failed
			if e == nil {
				for _, x := range outs {
					if reflect.DeepEqual(x, t) {
						match = append(match, c)
						break
					}
				}
			}
		}
		switch {
		case len(match) > 0:
			h.view[key] = match
		case e == nil || errors.Is(e, sessionid.ErrKeyNotExists):
			var cs []string
			for _, c := range cands {
				cs = append(cs, showVal(c))
			}
			got := "'key not exists'"
			if e == nil {
				got = fmt.Sprintf("%#v", reflect.ValueOf(t).Elem().Interface())
			}
			bad("returned %s; the handle's view and the provider allow only the values %v", got, cs)
		case okErr(e, be, ae), decodeFails:
		default:
			bad("failed with %v", e)
		}
		if e == nil {
			mutate(reflect.ValueOf(t))
		}
	case "h.del":
		tok := h.token
		if o.NT != "" {
			tok = string(o.NT)
		}
		_, be := direct(o.Keys)
		tb := in.prov.Check(ctx, tok)
		e := h.s.Delete(ctx, tok, strs(o.Keys)...)
		failing(e)
		after, ae := direct(o.Keys)
		ta := in.prov.Check(ctx, tok)
		if e != nil {
			if !okErr(e, tb, ta) {
				bad("failed with %v", e)
			}
			return nil
		}
		if tok != h.token {
			return nil // neither this handle's view nor its session changes
		}
		if ae == nil && be == nil {
			for _, k := range o.Keys {
				if after[string(k)] != nil {
					bad("succeeded, but the provider still holds %q", k)
				}
				h.view[string(k)] = []*string{nil}
			}
		}
	case "h.prep":
		before, be := direct(o.Keys)
		e := h.s.Prepare(ctx, strs(o.Keys)...)
		failing(e)
		after, ae := direct(o.Keys)
		if e != nil {
			if !okErr(e, be, ae) {
				bad("failed with %v", e)
			}
			return nil
		}
		for _, k := range o.Keys {
			s := string(k)
			if be == nil {
				h.view[s] = append(h.view[s], before[s])
			}
			if ae == nil {
				h.view[s] = append(h.view[s], after[s])
			}
		}
	case "h.keys":
		be := in.prov.Check(ctx, h.token)
		ks, e := h.s.Keys(ctx)
		failing(e)
		want, ae := in.prov.Keys(ctx, h.token)
		if e != nil {
			if !okErr(e, be, ae) {
				bad("failed with %v", e)
			}
		} else if ae == nil && !sameSet(ks, want) {
			bad("returned %q, the provider %q", ks, want)
		}
	case "h.check":
		be := in.prov.Check(ctx, h.token)
		e := h.s.Check(ctx)
		failing(e)
		ae := in.prov.Check(ctx, h.token)
		if !h.hit && classify(e) != classify(be) && classify(e) != classify(ae) {
			bad("returned %v, the provider %v", e, ae)
		}
	case "h.destroy":
		e := h.s.Destroy(ctx)
		failing(e)
		ae := in.prov.Check(ctx, h.token)
		if e == nil && ae == nil {
			bad("succeeded, but the session is alive")
		} else if e != nil && !h.hit {
			bad("failed with %v", e)
		}
	case "h.mrefresh", "h.mdestroy", "h.mdestroyt":
		if h.m != nil {
			w.manage(in, h, o, bad)
		}
	default:
		panic("unknown op " + o.Op)
	}
	return nil
}

// kindTarget is an empty target of the kind of a value.
func kindTarget(spec string) string {
	k, _, _ := strings.Cut(spec, ":")
	if k == "ptr" {
		k = "A"
	}
	return k + ":0"
}

func mustEncode(c sessionid.Coder, v interface{}) []byte {
	b, e := c.Encode(v)
	if e != nil {
		panic(e)
	}
	return b
}

func sameSet(a, b []string) bool {
	m := map[string]bool{}
	for _, x := range a {
		m[x] = true
	}
	n := map[string]bool{}
	for _, x := range b {
		n[x] = true
	}
	return reflect.DeepEqual(m, n) && len(a) == len(b)
}
