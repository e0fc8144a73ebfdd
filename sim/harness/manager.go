package harness

import (
	"bytes"
	"context"
	"crypto/hmac"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"errors"
	"hash"
	"slices"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/powerpuffpenguin/sessionid"
	"github.com/powerpuffpenguin/sessionid/cryptoer"

	"verifsim/simrt"
)

// uuidNow is the clock of the uuid package, a variable there "for testing".
//
//go:linkname uuidNow github.com/google/uuid.timeNow
var uuidNow func() time.Time

// clock is what version-1 UUIDs are made from: the simulated clock, which may
// be coarse and may jump.
type clock struct {
	offset atomic.Int64
	gran   int64
}

func (c *clock) now() time.Time {
	t := time.Now().UnixNano() + c.offset.Load()
	if c.gran > 1 {
		t -= t % c.gran
	}
	return time.Unix(0, t)
}

// rawCoder stores strings as they are.
type rawCoder struct{}

func (rawCoder) Encode(v interface{}) ([]byte, error) {
	s, ok := v.(string)
	if !ok {
		return nil, errors.New("raw: not a string")
	}
	return []byte(s), nil
}
func (rawCoder) Decode(b []byte, v interface{}) error {
	p, ok := v.(*string)
	if !ok {
		return errors.New("raw: not a string")
	}
	*p = string(b)
	return nil
}

type issued struct {
	mgr             int // which key and method
	access, refresh string
	id              string // encoded
}

type managers struct {
	clk    *clock
	race   uint64
	m      map[*inst]map[int]*sessionid.LocalManager
	issued []issued
	all    map[string]string
}

type signer struct {
	key    []byte
	method cryptoer.SigningMethod
	noKey  bool // the option is not given
	noMeth bool
}

const stdKey = "github.com/powerpuffpenguin/sessionid"

// signers are the keys and methods of the managers of a run.
var signers = func() (out []signer) {
	std := cryptoer.SigningMethodHMD5
	out = append(out, signer{[]byte(stdKey), std, true, true})
	ms := []cryptoer.SigningMethod{cryptoer.SigningMethodHMD5, cryptoer.SigningMethodHS1, cryptoer.SigningMethodHS256, cryptoer.SigningMethodHS384, cryptoer.SigningMethodHS512}
	keys := []string{"first key", "second key, which is longer than the block of md5, sha1 and sha256 and so is hashed before it is used at all", "k"}
	for i, k := range keys {
		for j := range ms {
			m := ms[(i+j)%len(ms)]
			if _, e := m.Sign("x", []byte(k)); e == nil {
				out = append(out, signer{[]byte(k), m, false, false})
			}
		}
	}
	// one of the options alone, and neighbours of these
	out = append(out, signer{[]byte("a key alone"), std, false, true})
	for _, m := range ms[1:] {
		if _, e := m.Sign("x", []byte("x")); e == nil {
			out = append(out, signer{[]byte(stdKey), m, true, false}, signer{[]byte("a key alone"), m, false, false})
		}
	}
	return
}()

func (w *world) managers() *managers {
	if w.mgr == nil {
		w.mgr = &managers{clk: &clock{gran: int64(w.p.Opts["uuidgran"])}, m: map[*inst]map[int]*sessionid.LocalManager{}, all: map[string]string{}}
		uuidNow = w.mgr.clk.now
	}
	return w.mgr
}

func (w *world) manager(in *inst, n int) *sessionid.LocalManager {
	g := w.managers()
	if g.m[in] == nil {
		g.m[in] = map[int]*sessionid.LocalManager{}
	}
	m := g.m[in][n]
	if m == nil {
		m = newManager(in.prov, n)
		g.m[in][n] = m
		simrt.RaceReleaseMerge(&g.race)
	}
	simrt.RaceAcquire(&g.race)
	return m
}

func newManager(p sessionid.Provider, n int) *sessionid.LocalManager {
	s := signers[n]
	opts := []sessionid.Option{sessionid.WithProvider(p), sessionid.WithCoder(rawCoder{})}
	if !s.noKey {
		opts = append(opts, sessionid.WithKey(append([]byte(nil), s.key...)))
	}
	if !s.noMeth {
		opts = append(opts, sessionid.WithMethod(s.method))
	}
	if n%2 == 1 {
		slices.Reverse(opts)
	}
	return sessionid.NewManager(opts...)
}

// nowhere is a provider that accepts every session and keeps none.
type nowhere struct{ sessionid.Provider }

func (nowhere) Create(context.Context, string, string, []sessionid.PairBytes) error { return nil }
func (nowhere) Refresh(context.Context, string, string, string, string) error       { return nil }

// mint has a manager issue many tokens, of sessions that are not kept.
func (w *world) mint(o *Op, r *Rec) {
	ctx, end := w.ctx()
	defer end()
	n := w.signerOf(o.N)
	m := newManager(nowhere{}, n)
	var access, refresh string
	for i := 0; i < o.Inst; i++ {
		var e error
		if i%4 == 3 {
			access, refresh, e = m.Refresh(ctx, access, refresh)
		} else {
			var s *sessionid.Session
			if s, refresh, e = m.Create(ctx, string(o.ID)); s != nil {
				access = s.Token()
			}
		}
		if e != nil {
			w.violate("create-failed", "the %dth session a Manager made for %q failed although nothing was in its way: %v", i+1, string(o.ID), e)
			return
		}
		w.register(r, access, refresh)
	}
}

// method looks up signing methods and registers one, as packages that bring
// their own do.
func (w *world) method(o *Op) {
	name := "SIM" + string(rune('0'+o.N%4))
	if o.N%3 == 0 {
		own := signers[0].method
		cryptoer.RegisterSigningMethod(name, func() cryptoer.SigningMethod { return own })
		cryptoer.GetSigningMethod(name)
	}
	cryptoer.GetSigningMethod(signers[o.N%len(signers)].method.Alg())
}

// own copies a string without the race detector taking the copy for an access
// of the client that got it: how clients hand on tokens is not of the system.
func own(s string) string {
	b := make([]byte, len(s))
	for i := range b {
		b[i] = s[i]
	}
	return unsafe.String(unsafe.SliceData(b), len(b))
}

func (w *world) issue(r *Rec, x issued) {
	simrt.RaceQuiet()
	defer simrt.RaceHeard()
	g := w.mgr
	x.access, x.refresh, x.id = own(x.access), own(x.refresh), own(x.id)
	w.register(r, x.access, x.refresh)
	g.issued = append(g.issued, x)
}

// register judges that tokens that were issued are new.
func (w *world) register(r *Rec, tokens ...string) {
	simrt.RaceQuiet()
	defer simrt.RaceHeard()
	g := w.mgr
	by := r.String()
	for _, t := range tokens {
		t = own(t)
		if o, dup := g.all[t]; dup {
			w.violate("token-reused", "token %q was issued by %s and had been issued before by %s", t, by, o)
		}
		g.all[t] = by
	}
}

// signerOf is the key and method the Nth manager of the run uses.
func (w *world) signerOf(n int) int {
	if n < 0 {
		n = -n
	}
	used := w.p.Opts["signers"]
	if used < 1 {
		used = 1
	}
	return (w.p.Opts["signer0"] + n%used) % len(signers)
}

func (w *world) managerOp(in *inst, o *Op, r *Rec) error {
	ctx, end := w.ctx()
	defer end()
	g := w.managers()
	pickIssued := func(n int) (issued, bool) {
		if len(g.issued) == 0 {
			return issued{}, false
		}
		if n < 0 {
			n = -n - 1
			if n >= len(g.issued) {
				return issued{}, false
			}
			return g.issued[n], true
		}
		return g.issued[n%len(g.issued)], true
	}
	skip := func() error { r.Op.Op = "sleep"; return nil }
	switch o.Op {
	case "m.clock":
		g.clk.offset.Add(int64(o.N) * int64(time.Millisecond))
		return nil
	case "m.method":
		w.method(o)
		return skip()
	case "m.mint":
		w.mint(o, r)
		return skip()
	case "m.create":
		n := w.signerOf(o.N)
		m := w.manager(in, n)
		var ps []sessionid.Pair
		for i := range o.Keys {
			ps = append(ps, sessionid.Pair{Key: string(o.Keys[i]), Value: string(o.Vals[i])})
		}
		s, refresh, e := m.Create(ctx, string(o.ID), ps...)
		if e != nil {
			if o.Ctx == 0 && classify(e) != "closed" {
				w.violate("create-failed", "Manager.Create(%q) failed although nothing was in its way: %v", string(o.ID), e)
			}
			return e
		}
		if s == nil {
			w.violate("token", "%s returned no session and no error", r)
			return nil
		}
		access := s.Token()
		id, ok := split(access)
		rid, rok := split(refresh)
		if !ok || !rok || id != rid {
			w.violate("token", "%s issued the malformed pair %q %q", r, access, refresh)
			return nil
		}
		r.Op.Op, r.Op.T, r.Op.R = "create", Str(access), Str(refresh)
		w.issue(r, issued{n, access, refresh, id})
		return nil
	case "m.check", "m.get", "m.put":
		x, ok := pickIssued(o.N)
		if !ok {
			return skip()
		}
		tok := x.access
		if o.R == "refresh" {
			tok = x.refresh // not an access token
		}
		r.Op.T, r.Op.R = Str(tok), ""
		r.Op.Op = strings.TrimPrefix(o.Op, "m.")
		s, e := w.manager(in, x.mgr).Get(ctx, tok)
		if e != nil {
			if tok == x.refresh {
				return sessionid.ErrTokenNotExists // refused at once
			}
			w.violate("genuine-refused", "Manager.Get refused the genuine token %q: %v", tok, e)
			return skip()
		}
		if s.Token() != tok {
			w.violate("token", "Manager.Get(%q) returned the session of %q", tok, s.Token())
		}
		switch o.Op {
		case "m.check":
			return s.Check(ctx)
		case "m.put":
			var ps []sessionid.Pair
			for i := range o.Keys {
				ps = append(ps, sessionid.Pair{Key: string(o.Keys[i]), Value: string(o.Vals[i])})
			}
			if len(ps) == 0 {
				return s.Check(ctx)
			}
			return s.Put(ctx, ps...)
		}
		if len(r.Op.Keys) > 1 {
			r.Op.Keys = r.Op.Keys[:1]
		}
		var v string
		e = s.Get(ctx, string(o.Keys[0]), &v)
		if errors.Is(e, sessionid.ErrKeyNotExists) {
			r.Vals = []string{"-"}
			return nil
		}
		if e == nil {
			r.Vals = []string{"+" + v}
		}
		return e
	case "m.refresh":
		x, ok := pickIssued(o.N)
		if !ok {
			return skip()
		}
		y := x
		if o.R == "other" {
			y, _ = pickIssued(o.N/7 + 1)
		}
		a, rt := x.access, y.refresh
		switch o.R {
		case "swapped":
			a, rt = x.refresh, x.access
		case "access":
			rt = x.access
		}
		r.Op.Op, r.Op.T, r.Op.R = "refresh", Str(a), Str(rt)
		r.Op.NT, r.Op.NR = Str(x.id+".none."), Str(x.id+".none2.")
		na, nr, e := w.manager(in, x.mgr).Refresh(ctx, a, rt)
		if e != nil {
			if y.mgr != x.mgr && classify(e) == "other" {
				// signed with another key
				r.Op.Op = "sleep"
				r.Expect = true
			}
			return e
		}
		if y.mgr != x.mgr {
			w.violate("forged-accepted", "Manager.Refresh accepted the refresh token %q of another key", rt)
		}
		id, ok := split(na)
		rid, rok := split(nr)
		if !ok || !rok || id != rid {
			w.violate("token", "%s issued the malformed pair %q %q", r, na, nr)
			return nil
		}
		r.Op.NT, r.Op.NR = Str(na), Str(nr)
		w.issue(r, issued{x.mgr, na, nr, id})
		return nil
	case "m.destroyt":
		x, ok := pickIssued(o.N)
		if !ok {
			return skip()
		}
		r.Op.Op, r.Op.T = "destroyt", Str(x.access)
		return w.manager(in, x.mgr).DestroyByToken(ctx, x.access)
	case "m.destroy":
		x, ok := pickIssued(o.N)
		if !ok {
			return skip()
		}
		// the id as the caller knows it
		b, e := cryptoer.DecodeSegment(x.id)
		if e != nil {
			return skip()
		}
		r.Op.Op, r.Op.ID = "destroy", Str(x.id)
		return w.manager(in, x.mgr).Destroy(ctx, string(b))
	case "m.forge":
		x, ok := pickIssued(o.N)
		if !ok {
			return skip()
		}
		y, _ := pickIssued(o.N/5 + 1)
		w.forge(in, r, x, y, string(o.R), int(o.At2()))
		return nil
	}
	panic("unknown op " + o.Op)
}

// At2 is a free parameter of an operation.
func (o *Op) At2() int {
	n := 0
	for _, c := range []byte(o.NR) {
		n = n*31 + int(c)
	}
	if n < 0 {
		n = -n
	}
	return n
}

// forge presents an altered token in every place a token is taken.
func (w *world) forge(in *inst, r *Rec, x, y issued, kind string, n int) {
	ctx, end := w.ctx()
	defer end()
	mgr := x.mgr
	if kind == "foreign" { // to a manager with another key or method
		mgr = n % len(signers)
		if n%3 > 0 {
			mgr = w.signerOf(n)
		}
		if mgr == x.mgr {
			mgr = (mgr + 1) % len(signers)
		}
	}
	m := w.manager(in, mgr)
	if kind == "neighbour" {
		by := &signers[x.mgr]
		k := likeKey(by, n)
		if r := refSign(by.method, "x", k); r == "" || r == refSign(by.method, "x", by.key) {
			return
		}
		m, mgr = sessionid.NewManager(sessionid.WithProvider(in.prov), sessionid.WithCoder(rawCoder{}), sessionid.WithKey(k), sessionid.WithMethod(by.method)), -1
	}
	for _, base := range []string{x.access, x.refresh} {
		f := base
		if kind != "foreign" && kind != "neighbour" {
			f = alter(base, y, &signers[x.mgr], kind, n)
		}
		if f == "" || w.genuine(f, mgr) {
			continue
		}
		if s, e := m.Get(ctx, f); e == nil {
			st := s.Check(ctx)
			w.violate("forged-accepted", "Manager.Get accepted %q, altered (%s) from %q; its session's Check says %v", f, kind, base, st)
			return
		}
		for _, p := range [][2]string{{f, x.refresh}, {x.access, f}, {f, f}} {
			if na, _, e := m.Refresh(ctx, p[0], p[1]); e == nil {
				w.violate("forged-accepted", "Manager.Refresh(%q, %q) succeeded and issued %q although %q is altered (%s) from %q", p[0], p[1], na, f, kind, base)
				return
			}
		}
	}
}

// genuine reports whether t was issued under the same key.
func (w *world) genuine(t string, mgr int) bool {
	for _, x := range w.mgr.issued {
		if (x.access == t || x.refresh == t) && x.mgr == mgr {
			return true
		}
	}
	return false
}

var forgeries = []string{"flip", "bits", "case", "append", "newline", "cut", "nosig", "dropseg", "swapsig", "swapid", "swapsession", "pad", "extradot", "space", "otherkey", "otherkey", "resign", "std64", "movedot", "prefix", "empty", "nul", "cutsig", "zerosig", "double", "foreign", "foreign", "neighbour", "neighbour"}

const b64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"

// likeKey is a key that resembles that of a signer.
func likeKey(by *signer, n int) []byte {
	k := bytes.Clone(by.key)
	at := n / 16
	switch n % 8 {
	case 0:
		k[at%len(k)] ^= 1 << (at % 7)
	case 1:
		k[len(k)-1-at%(len(k)+1)/2] ^= 1
	case 2:
		k = k[:at%len(k)]
	case 3:
		k = k[at%len(k):]
	case 4:
		k = append(k, " \n\tx."[at%5])
	case 5:
		k = append([]byte(" \n\tx.")[at%5:][:1], k...)
	case 6:
		k = [][]byte{bytes.ToUpper(k), bytes.ToLower(k), bytes.Replace(k, []byte(" "), nil, -1), []byte(cryptoer.EncodeSegment(k))}[at%4]
	case 7:
		if k = append(k, k...); at%2 == 0 {
			slices.Reverse(k)
		}
	}
	return k
}

// refSign signs without the code under test.
func refSign(m cryptoer.SigningMethod, text string, key []byte) string {
	var h func() hash.Hash
	switch m {
	case cryptoer.SigningMethodHMD5:
		h = md5.New
	case cryptoer.SigningMethodHS1:
		h = sha1.New
	case cryptoer.SigningMethodHS256:
		h = sha256.New
	case cryptoer.SigningMethodHS384:
		h = sha512.New384
	case cryptoer.SigningMethodHS512:
		h = sha512.New
	default:
		return ""
	}
	x := hmac.New(h, key)
	x.Write([]byte(text))
	return base64.RawURLEncoding.EncodeToString(x.Sum(nil))
}

func alter(t string, y issued, by *signer, kind string, n int) string {
	i, j := strings.IndexByte(t, '.'), strings.LastIndexByte(t, '.')
	if i < 0 || j <= i {
		return ""
	}
	id, mid, sig := t[:i], t[i+1:j], t[j+1:]
	yi, yj := strings.IndexByte(y.access, '.'), strings.LastIndexByte(y.access, '.')
	if yi < 0 || yj <= yi {
		return ""
	}
	yid, ymid, ysig := y.access[:yi], y.access[yi+1:yj], y.access[yj+1:]
	join := func(a ...string) string { return strings.Join(a, ".") }
	flip := func(s string, at int, x byte) string {
		if len(s) == 0 {
			return "A"
		}
		b := []byte(s)
		at %= len(b)
		b[at] ^= x
		return string(b)
	}
	switch kind {
	case "flip":
		return flip(t, n, byte(1)<<(uint(n/97)%7))
	case "bits": // the spare bits of the last base64 digit
		if len(sig) == 0 {
			return ""
		}
		v := strings.IndexByte(b64, sig[len(sig)-1])
		if v < 0 {
			return ""
		}
		return join(id, mid, sig[:len(sig)-1]+string(b64[v^(1+n%3)]))
	case "case":
		b := []byte(t)
		for k := 0; k < len(b); k++ {
			p := (n + k) % len(b)
			if c := b[p] | 0x20; c >= 'a' && c <= 'z' {
				b[p] ^= 0x20
				return string(b)
			}
		}
		return ""
	case "append":
		return t + string(b64[n%64])
	case "newline":
		k := n % (len(sig) + 1)
		return join(id, mid, sig[:k]+[]string{"\n", "\r\n", "\r"}[n%3]+sig[k:])
	case "cut":
		return t[:len(t)-1-n%3]
	case "cutsig":
		return join(id, mid, sig[:n%(len(sig)+1)])
	case "zerosig":
		return join(id, mid, strings.Repeat("A", len(sig)))
	case "nosig":
		return join(id, mid, "")
	case "dropseg":
		return [...]string{join(id, mid), join(id, sig), join(mid, sig), sig, mid}[n%5]
	case "swapsig":
		return join(id, mid, ysig)
	case "swapid":
		if yid == id {
			yid = id + "x"
		}
		return join(yid, mid, sig)
	case "swapsession":
		return join(id, ymid, sig)
	case "pad":
		return t + strings.Repeat("=", 1+n%2)
	case "extradot":
		return [...]string{join(id, "", mid, sig), join(id, mid, "", sig), "." + t, t + ".", join(id, mid, sig[:len(sig)/2], sig[len(sig)/2:])}[n%5]
	case "movedot":
		if len(mid) < 2 {
			return ""
		}
		return [...]string{join(id+mid[:1], mid[1:], sig), join(id, mid[:len(mid)-1], mid[len(mid)-1:]+sig), join(id, mid+sig[:1], sig[1:])}[n%3]
	case "space":
		return [...]string{" " + t, t + " ", t + "\t", t + "\x00"}[n%4]
	case "nul":
		k := n % (len(t) + 1)
		return t[:k] + "\x00" + t[k:]
	case "otherkey":
		// the same content, signed with a key that resembles the right one
		k := likeKey(by, n)
		if s := refSign(by.method, join(id, mid), k); s != "" && s != refSign(by.method, join(id, mid), by.key) {
			return join(id, mid, s)
		}
		return ""
	case "resign":
		// the same content, signed by someone else
		k := &signers[1+n%(len(signers)-1)]
		s := refSign(k.method, join(id, mid), []byte([...]string{"someone else's key", "", stdKey + " ", id, "key"}[n/len(signers)%5]))
		if s == "" {
			return ""
		}
		return join(id, mid, s)
	case "std64":
		s := strings.NewReplacer("-", "+", "_", "/").Replace(sig)
		if s == sig {
			return ""
		}
		return join(id, mid, s)
	case "prefix":
		return string(b64[n%64]) + t
	case "empty":
		return [...]string{"", ".", "..", "...", id + ".."}[n%5]
	case "double":
		return t + "." + t
	}
	panic("alter " + kind)
}
