// Package fakeredis is the simulated redis server and the network to it.
//
// The real go-redis client talks RESP to it over simulated connections.  Each
// connection has a server task; every command executes atomically, in an order
// the scheduler chooses.
package fakeredis

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifsim/simrt"
)

type entry struct {
	hash   map[string]string
	str    *string
	set    map[string]bool
	expire time.Time
}

// Faults are per-mille rates for each command or call.
type Faults struct {
	ResetBefore int // connection reset, command not executed
	LostReply   int // command executed, reply lost with the connection
	Delay       int // command executed late, by up to MaxDelay
	DelayReply  int
	MaxDelay    time.Duration
	Partial     int // part of a client write arrives, then a reset
	ErrReply    int // error reply, command not executed
	DialErr     int
	Latency     time.Duration // ordinary latency, not a fault
	CrashOp     int           // the client process dies at this network operation
	// NoLate: a request whose client has given up on it is never executed late.
	// Set when the client library retries on its own, because a late first
	// attempt under a retried call is the network's doing, not the provider's.
	NoLate  bool
	OnCrash func(n *simrt.Node)
	Active  bool
}

// Server is the simulated redis server.
type Server struct {
	K     *simrt.Kernel
	Node  *simrt.Node
	F     Faults
	Skew  time.Duration // of the server's clock
	Count map[string]int64
	Cmds  int64

	// Drift slows the server's clock, by so many thousandths.
	Drift int

	data    map[string]*entry
	version map[string]int64
	ver     int64
	down    bool
	gen     int
	conns   []*Conn
	scan    map[string]string
	scanN   int

	// Unsupported is set when the client used a command the stub lacks.
	Unsupported string
	// OnCommand sees every executed command.
	OnCommand func(node *simrt.Node, args []string)
}

// New makes a server.
func New(k *simrt.Kernel, node *simrt.Node) *Server {
	return &Server{K: k, Node: node, Count: map[string]int64{}, data: map[string]*entry{}, version: map[string]int64{}, scan: map[string]string{}}
}

// now is the server's clock, which redis reads in milliseconds; a key expires
// when that clock is past its time.
func (s *Server) now() time.Time {
	return time.Now().Add(s.Skew - s.K.Now()/1000*time.Duration(s.Drift)).Truncate(time.Millisecond)
}

func (s *Server) fault(kind string) { s.Count[kind]++; s.K.Tracef("redis fault: %s", kind) }

func (s *Server) touch(key string) { s.ver++; s.version[key] = s.ver }

func (s *Server) get(key string) *entry {
	e := s.data[key]
	if e == nil {
		return nil
	}
	if !e.expire.IsZero() && s.now().After(e.expire) {
		delete(s.data, key)
		s.touch(key)
		return nil
	}
	return e
}

// Conn is one simulated connection, the client's end.
type Conn struct {
	s        *Server
	node     *simrt.Node
	id       int
	c2s      []byte
	s2c      []byte
	closed   bool // by the client
	reset    bool // by the network or the server
	eof      bool // orderly, by the server
	rdl, wdl time.Time
	// server side
	used   int64 // when its first command arrived
	multi  bool
	abort  bool
	queue  [][]string
	watch  map[string]int64
	wexist map[string]bool
}

type addr struct{}

func (addr) Network() string { return "sim" }
func (addr) String() string  { return "sim" }

// Dial connects a client; use as redis.Options.Dialer.
func (s *Server) Dial(ctx context.Context, network, address string) (net.Conn, error) {
	s.K.Linger(true)
	defer s.K.Linger(false)
	s.K.Yield("dial")
	s.K.ExitIfDead()
	t := simrt.Self()
	if gone() {
		return nil, syscall.ECONNREFUSED
	}
	if s.down {
		s.Count["net.dial.refused"]++
		return nil, &net.OpError{Op: "dial", Net: "sim", Err: syscall.ECONNREFUSED}
	}
	if s.F.Active && s.F.DialErr > 0 && s.K.Ch.Chance(s.F.DialErr, "dialerr") {
		s.fault("net.dial.refused")
		return nil, &net.OpError{Op: "dial", Net: "sim", Err: syscall.ECONNREFUSED}
	}
	c := &Conn{s: s, node: t.Node, id: len(s.conns) + 1}
	s.conns = append(s.conns, c)
	s.K.GoDaemon(s.Node, "redis#"+strconv.Itoa(c.id), func() { s.serve(c) })
	return c, nil
}

var errReset = &net.OpError{Op: "read", Net: "sim", Err: syscall.ECONNRESET}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }
func (timeoutErr) Unwrap() error   { return os.ErrDeadlineExceeded }

func (c *Conn) crashPoint() {
	f := &c.s.F
	if f.Active && f.CrashOp > 0 {
		t := simrt.Self()
		if t != nil && !t.Exiting() && !t.Zombie && c.s.K.Ch.Chance(f.CrashOp, "crash") {
			f.OnCrash(t.Node)
		}
	}
	c.s.K.ExitIfDead()
}

func gone() bool {
	t := simrt.Self()
	return t == nil || t.Exiting() || t.Zombie || (t.Node != nil && t.Node.Dead)
}

func (c *Conn) Read(b []byte) (int, error) {
	if c.closed {
		return 0, net.ErrClosed
	}
	if gone() {
		return 0, io.EOF
	}
	c.s.K.Linger(true)
	defer c.s.K.Linger(false)
	ok := c.s.K.WaitUntil("net read", func() bool { return len(c.s2c) > 0 || c.reset || c.eof || c.closed }, c.rdl)
	c.crashPoint()
	switch {
	case gone():
		return 0, io.EOF
	case c.closed:
		return 0, net.ErrClosed
	case c.reset:
		return 0, errReset
	case len(c.s2c) > 0:
		n := copy(b, c.s2c)
		c.s2c = c.s2c[n:]
		return n, nil
	case c.eof:
		return 0, io.EOF
	case !ok:
		return 0, timeoutErr{}
	}
	return 0, io.EOF
}

func (c *Conn) Write(b []byte) (int, error) {
	if c.closed {
		return 0, net.ErrClosed
	}
	if gone() {
		return 0, io.EOF
	}
	c.s.K.Linger(true)
	defer c.s.K.Linger(false)
	c.s.K.Yield("net write")
	c.crashPoint()
	if gone() {
		return 0, io.EOF
	}
	if c.reset || c.eof {
		return 0, &net.OpError{Op: "write", Net: "sim", Err: syscall.EPIPE}
	}
	f := &c.s.F
	if f.Active && f.Partial > 0 && c.s.K.Ch.Chance(f.Partial, "partial") {
		n := c.s.K.Ch.Choose(len(b), "partiallen")
		c.s.fault("net.write.partial")
		if f.NoLate {
			c.reset = true
		} else {
			c.c2s = append(c.c2s, b[:n]...)
			c.eof = true
		}
		return n, &net.OpError{Op: "write", Net: "sim", Err: syscall.ECONNRESET}
	}
	c.c2s = append(c.c2s, b...)
	return len(b), nil
}

// Close must not be a scheduling point: the client calls it under its own locks.
func (c *Conn) Close() error {
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	return nil
}
func (c *Conn) LocalAddr() net.Addr                { return addr{} }
func (c *Conn) RemoteAddr() net.Addr               { return addr{} }
func (c *Conn) SetDeadline(t time.Time) error      { c.rdl, c.wdl = t, t; return nil }
func (c *Conn) SetReadDeadline(t time.Time) error  { c.rdl = t; return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { c.wdl = t; return nil }

// parse takes one complete command off the buffer.
func (c *Conn) parse(take bool) ([]string, bool) {
	b := c.c2s
	line := func() (string, bool) {
		i := bytes.Index(b, []byte("\r\n"))
		if i < 0 {
			return "", false
		}
		l := string(b[:i])
		b = b[i+2:]
		return l, true
	}
	h, ok := line()
	if !ok || len(h) < 2 || h[0] != '*' {
		return nil, false
	}
	n, _ := strconv.Atoi(h[1:])
	var args []string
	for i := 0; i < n; i++ {
		l, ok := line()
		if !ok || l[0] != '$' {
			return nil, false
		}
		m, _ := strconv.Atoi(l[1:])
		if len(b) < m+2 {
			return nil, false
		}
		args = append(args, string(b[:m]))
		b = b[m+2:]
	}
	if take {
		c.c2s = b
	}
	return args, true
}

func (s *Server) serve(c *Conn) {
	k := s.K
	gen := s.gen
	end := func() bool {
		return c.reset || s.gen != gen || c.closed || c.eof || (c.node != nil && c.node.Dead)
	}
	for {
		k.WaitUntil("serve", func() bool {
			if c.reset || s.gen != gen {
				return true
			}
			if _, ok := c.parse(false); ok {
				return true
			}
			return end()
		}, time.Time{})
		if c.reset || s.gen != gen {
			return
		}
		args, ok := c.parse(true)
		if !ok {
			return // the client is gone and nothing complete is left
		}
		f := &s.F
		if (c.closed || c.node.Dead) && (f.NoLate || k.Ch.Choose(2, "inflight") == 1) {
			s.Count["net.inflight.lost"]++
			return
		}
		if f.Latency > 0 {
			k.Sleep(k.Ch.Duration(f.Latency, "latency"))
		}
		if f.Active {
			if f.ResetBefore > 0 && k.Ch.Chance(f.ResetBefore, "reset") {
				s.fault("net.reset.before")
				c.reset = true
				return
			}
			if f.Delay > 0 && k.Ch.Chance(f.Delay, "delay") {
				s.fault("net.delay.request")
				k.Sleep(k.Ch.Duration(f.MaxDelay, "delaydur"))
			}
			if s.gen != gen {
				return
			}
			// redis never refuses MULTI, DISCARD and UNWATCH
			ctl := map[string]bool{"MULTI": true, "DISCARD": true, "UNWATCH": true}[strings.ToUpper(args[0])]
			if f.ErrReply > 0 && !ctl && k.Ch.Chance(f.ErrReply, "errreply") {
				s.fault("redis.error.reply")
				if c.multi && strings.ToUpper(args[0]) != "EXEC" {
					c.abort = true
				} else if strings.ToUpper(args[0]) == "EXEC" {
					c.multi, c.abort, c.queue, c.watch = false, false, nil, nil
				}
				msg := []string{"-LOADING Redis is loading the dataset in memory\r\n", "-OOM command not allowed when used memory > 'maxmemory'.\r\n", "-ERR injected failure\r\n"}
				c.s2c = append(c.s2c, msg[k.Ch.Choose(3, "errkind")]...)
				continue
			}
		}
		if s.gen != gen || c.reset {
			return
		}
		if f.NoLate && (c.closed || c.node.Dead) {
			s.Count["net.inflight.lost"]++
			return
		}
		s.Cmds++
		if c.used == 0 {
			c.used = k.Seq()
		}
		if s.OnCommand != nil {
			s.OnCommand(c.node, args)
		}
		reply := s.command(c, args)
		if k.P.Trace {
			k.Tracef("redis #%d %q -> %q", c.id, clip(args), clip1(reply))
		}
		if f.Active {
			if f.LostReply > 0 && k.Ch.Chance(f.LostReply, "lost") {
				s.fault("net.reply.lost")
				c.reset = true
				return
			}
			if f.DelayReply > 0 && k.Ch.Chance(f.DelayReply, "delayreply") {
				s.fault("net.delay.reply")
				k.Sleep(k.Ch.Duration(f.MaxDelay, "delaydur"))
			}
		}
		if s.gen != gen || c.reset {
			return
		}
		c.s2c = append(c.s2c, reply...)
	}
}

func clip(a []string) []string {
	var r []string
	for _, s := range a {
		r = append(r, clip1(s))
	}
	return r
}
func clip1(s string) string {
	if len(s) > 48 {
		return s[:40] + "..."
	}
	return s
}

// Stop takes the server down: all connections break.
func (s *Server) Stop() {
	s.down = true
	s.gen++
	for _, c := range s.conns {
		c.reset = true
	}
	s.fault("redis.restart")
}

// Start brings the server back with its data.
func (s *Server) Start() { s.down = false }

// Shutdown ends all server tasks at the end of a run.
func (s *Server) Shutdown() {
	s.gen++
	for _, c := range s.conns {
		c.reset = true
	}
}

// OpenConns counts the connections of a node which were in use before seq and
// which their client has not closed.  (go-redis leaks one that is being dialed
// while the client is closed.)
func (s *Server) OpenConns(n *simrt.Node, seq int64) int {
	r := 0
	for _, c := range s.conns {
		if c.node == n && !c.closed && c.used != 0 && c.used < seq {
			r++
		}
	}
	return r
}

// Keys lists the keys that exist, sorted.
func (s *Server) Keys() []string {
	var r []string
	for k := range s.data {
		r = append(r, k)
	}
	sort.Strings(r)
	out := r[:0]
	for _, k := range r {
		if s.get(k) != nil {
			out = append(out, k)
		}
	}
	return out
}

// TTL returns the time to live of a key; ok is false when it has none.
func (s *Server) TTL(key string) (d time.Duration, ok bool) {
	e := s.get(key)
	if e == nil || e.expire.IsZero() {
		return 0, false
	}
	return e.expire.Sub(s.now()), true
}

// SetHash stores a foreign hash, for checks that nobody touches it.
func (s *Server) SetHash(key string, f map[string]string) {
	s.data[key] = &entry{hash: f}
	s.touch(key)
}

// Hash returns the fields of a key.
func (s *Server) Hash(key string) map[string]string {
	if e := s.get(key); e != nil {
		return e.hash
	}
	return nil
}

func rInt(n int64) string { return fmt.Sprintf(":%d\r\n", n) }
func rBulk(s string) string {
	return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s)
}
func rArr(ss []string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "*%d\r\n", len(ss))
	for _, s := range ss {
		b.WriteString(rBulk(s))
	}
	return b.String()
}

const (
	rOK    = "+OK\r\n"
	rNil   = "$-1\r\n"
	rWrong = "-WRONGTYPE Operation against a key holding the wrong kind of value\r\n"
)

func (s *Server) command(c *Conn, a []string) string {
	cmd := strings.ToUpper(a[0])
	switch cmd {
	case "MULTI":
		if c.multi {
			return "-ERR MULTI calls can not be nested\r\n"
		}
		c.multi, c.abort, c.queue = true, false, nil
		return rOK
	case "DISCARD":
		if !c.multi {
			return "-ERR DISCARD without MULTI\r\n"
		}
		c.multi, c.queue, c.watch = false, nil, nil
		return rOK
	case "WATCH":
		if c.multi {
			return "-ERR WATCH inside MULTI is not allowed\r\n"
		}
		if c.watch == nil {
			c.watch, c.wexist = map[string]int64{}, map[string]bool{}
		}
		for _, k := range a[1:] {
			ex := s.get(k) != nil
			if _, ok := c.watch[k]; !ok {
				c.watch[k] = s.version[k]
				c.wexist[k] = ex
			}
		}
		return rOK
	case "UNWATCH":
		if !c.multi {
			c.watch = nil
		}
		return rOK
	case "EXEC":
		if !c.multi {
			return "-ERR EXEC without MULTI\r\n"
		}
		q := c.queue
		dirty := false
		var ks []string
		for k := range c.watch {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			s.get(k)
			if s.version[k] != c.watch[k] {
				dirty = true
			}
		}
		abort := c.abort
		c.multi, c.abort, c.queue, c.watch = false, false, nil, nil
		if abort {
			return "-EXECABORT Transaction discarded because of previous errors.\r\n"
		}
		if dirty {
			s.Count["redis.watch.conflict"]++
			return "*-1\r\n"
		}
		var b strings.Builder
		fmt.Fprintf(&b, "*%d\r\n", len(q))
		for _, x := range q {
			b.WriteString(s.exec(x))
		}
		return b.String()
	}
	if c.multi {
		if !s.known(a) {
			c.abort = true
			return s.exec(a)
		}
		c.queue = append(c.queue, a)
		return "+QUEUED\r\n"
	}
	return s.exec(a)
}

var arity = map[string]int{ // negative: at least
	"PING": -1, "ECHO": 2, "SELECT": 2, "AUTH": -2, "HSET": -4, "HMSET": -4, "HSETNX": 4, "HGET": 3, "HMGET": -3,
	"HKEYS": 2, "HVALS": 2, "HGETALL": 2, "HDEL": -3, "HLEN": 2, "HEXISTS": 3, "DEL": -2, "UNLINK": -2, "EXISTS": -2,
	"KEYS": 2, "SCAN": -2, "HSCAN": -3, "EXPIRE": -3, "PEXPIRE": -3, "EXPIREAT": -3, "PEXPIREAT": -3, "PERSIST": 2,
	"TTL": 2, "PTTL": 2, "RENAME": 3, "RENAMENX": 3, "TYPE": 2, "SET": -3, "GET": 2, "SETNX": 3, "SADD": -3, "SREM": -3,
	"SMEMBERS": 2, "SISMEMBER": 3, "SCARD": 2, "COPY": -3, "TIME": 1, "CLIENT": -2, "FLUSHDB": -1, "DBSIZE": 1, "TOUCH": -2,
	"HSTRLEN": 3, "GETDEL": 2, "QUIT": 1, "INCR": 2, "HINCRBY": 4, "SETEX": 4, "PSETEX": 4,
}

func (s *Server) known(a []string) bool {
	n, ok := arity[strings.ToUpper(a[0])]
	return ok && (n > 0 && len(a) == n || n < 0 && len(a) >= -n)
}

func (s *Server) hash(key string, create bool) (*entry, string) {
	e := s.get(key)
	if e == nil {
		if create {
			e = &entry{hash: map[string]string{}}
			s.data[key] = e
		}
		return e, ""
	}
	if e.hash == nil {
		return nil, rWrong
	}
	return e, ""
}

func sorted(m map[string]string) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (s *Server) exec(a []string) string {
	cmd := strings.ToUpper(a[0])
	n, ok := arity[cmd]
	if !ok {
		s.Unsupported = cmd
		return fmt.Sprintf("-ERR unknown command `%s`\r\n", a[0])
	}
	if n > 0 && len(a) != n || n < 0 && len(a) < -n {
		return fmt.Sprintf("-ERR wrong number of arguments for '%s' command\r\n", strings.ToLower(cmd))
	}
	switch cmd {
	case "PING":
		return "+PONG\r\n"
	case "ECHO":
		return rBulk(a[1])
	case "SELECT", "AUTH", "CLIENT", "QUIT":
		return rOK
	case "TIME":
		t := s.now()
		return rArr([]string{fmt.Sprint(t.Unix()), fmt.Sprint(t.Nanosecond() / 1000)})
	case "HSET", "HMSET":
		if len(a)%2 != 0 {
			return fmt.Sprintf("-ERR wrong number of arguments for '%s' command\r\n", strings.ToLower(cmd))
		}
		e, er := s.hash(a[1], true)
		if er != "" {
			return er
		}
		var added int64
		for i := 2; i < len(a); i += 2 {
			if _, ok := e.hash[a[i]]; !ok {
				added++
			}
			e.hash[a[i]] = a[i+1]
		}
		s.touch(a[1])
		if cmd == "HMSET" {
			return rOK
		}
		return rInt(added)
	case "HSETNX":
		e, er := s.hash(a[1], true)
		if er != "" {
			return er
		}
		if _, ok := e.hash[a[2]]; ok {
			return rInt(0)
		}
		e.hash[a[2]] = a[3]
		s.touch(a[1])
		return rInt(1)
	case "HINCRBY":
		e, er := s.hash(a[1], true)
		if er != "" {
			return er
		}
		v, _ := strconv.ParseInt(e.hash[a[2]], 10, 64)
		d, err := strconv.ParseInt(a[3], 10, 64)
		if err != nil {
			return "-ERR value is not an integer or out of range\r\n"
		}
		e.hash[a[2]] = fmt.Sprint(v + d)
		s.touch(a[1])
		return rInt(v + d)
	case "HGET":
		e, er := s.hash(a[1], false)
		if er != "" {
			return er
		}
		if e != nil {
			if v, ok := e.hash[a[2]]; ok {
				return rBulk(v)
			}
		}
		return rNil
	case "HMGET":
		e, er := s.hash(a[1], false)
		if er != "" {
			return er
		}
		var b strings.Builder
		fmt.Fprintf(&b, "*%d\r\n", len(a)-2)
		for _, f := range a[2:] {
			v, ok := "", false
			if e != nil {
				v, ok = e.hash[f]
			}
			if ok {
				b.WriteString(rBulk(v))
			} else {
				b.WriteString(rNil)
			}
		}
		return b.String()
	case "HKEYS", "HVALS", "HGETALL", "HLEN", "HEXISTS", "HSTRLEN", "HSCAN":
		e, er := s.hash(a[1], false)
		if er != "" {
			return er
		}
		h := map[string]string{}
		if e != nil {
			h = e.hash
		}
		var r []string
		switch cmd {
		case "HLEN":
			return rInt(int64(len(h)))
		case "HEXISTS":
			if _, ok := h[a[2]]; ok {
				return rInt(1)
			}
			return rInt(0)
		case "HSTRLEN":
			return rInt(int64(len(h[a[2]])))
		}
		for _, f := range sorted(h) {
			switch cmd {
			case "HKEYS":
				r = append(r, f)
			case "HVALS":
				r = append(r, h[f])
			default:
				r = append(r, f, h[f])
			}
		}
		if cmd == "HSCAN" {
			return "*2\r\n" + rBulk("0") + rArr(r)
		}
		return rArr(r)
	case "HDEL":
		e, er := s.hash(a[1], false)
		if er != "" {
			return er
		}
		var d int64
		if e != nil {
			for _, f := range a[2:] {
				if _, ok := e.hash[f]; ok {
					delete(e.hash, f)
					d++
				}
			}
			if d > 0 {
				s.touch(a[1])
			}
			if len(e.hash) == 0 {
				delete(s.data, a[1])
			}
		}
		return rInt(d)
	case "DEL", "UNLINK":
		var d int64
		for _, k := range a[1:] {
			if s.get(k) != nil {
				delete(s.data, k)
				s.touch(k)
				d++
			}
		}
		return rInt(d)
	case "EXISTS", "TOUCH":
		var d int64
		for _, k := range a[1:] {
			if s.get(k) != nil {
				d++
			}
		}
		return rInt(d)
	case "KEYS":
		var r []string
		for _, k := range s.Keys() {
			if match(a[1], k) {
				r = append(r, k)
			}
		}
		return rArr(r)
	case "DBSIZE":
		return rInt(int64(len(s.Keys())))
	case "SCAN":
		pat, count := "*", 10
		for i := 2; i+1 < len(a); i += 2 {
			switch strings.ToUpper(a[i]) {
			case "MATCH":
				pat = a[i+1]
			case "COUNT":
				count, _ = strconv.Atoi(a[i+1])
			}
		}
		if count > 3 {
			count = 3 // real servers return pages of any size
		}
		last := s.scan[a[1]]
		var r []string
		next := "0"
		seen := 0
		for _, k := range s.Keys() {
			if a[1] != "0" && k <= last {
				continue
			}
			if seen == count {
				s.scanN++
				next = fmt.Sprint(s.scanN)
				break
			}
			seen++
			last = k
			if match(pat, k) {
				r = append(r, k)
			}
		}
		if next != "0" {
			s.scan[next] = last
		}
		return "*2\r\n" + rBulk(next) + rArr(r)
	case "EXPIRE", "PEXPIRE", "EXPIREAT", "PEXPIREAT":
		v, err := strconv.ParseInt(a[2], 10, 64)
		if err != nil {
			return "-ERR value is not an integer or out of range\r\n"
		}
		e := s.get(a[1])
		if e == nil {
			return rInt(0)
		}
		var at time.Time
		switch cmd {
		case "EXPIRE":
			if v > 1<<63/1001 {
				return "-ERR invalid expire time in 'expire' command\r\n"
			}
			at = time.UnixMilli(s.now().UnixMilli() + v*1000)
		case "PEXPIRE":
			if v > 1<<63-1-s.now().UnixMilli() {
				return "-ERR invalid expire time in 'pexpire' command\r\n"
			}
			at = time.UnixMilli(s.now().UnixMilli() + v)
		case "EXPIREAT":
			at = time.Unix(v, 0)
		case "PEXPIREAT":
			at = time.UnixMilli(v)
		}
		if len(a) > 3 {
			switch strings.ToUpper(a[3]) {
			case "NX":
				if !e.expire.IsZero() {
					return rInt(0)
				}
			case "XX":
				if e.expire.IsZero() {
					return rInt(0)
				}
			case "GT":
				if e.expire.IsZero() || !at.After(e.expire) {
					return rInt(0)
				}
			case "LT":
				if !e.expire.IsZero() && !at.Before(e.expire) {
					return rInt(0)
				}
			}
		}
		e.expire = at
		s.touch(a[1])
		if !at.After(s.now()) {
			delete(s.data, a[1])
		}
		return rInt(1)
	case "PERSIST":
		e := s.get(a[1])
		if e == nil || e.expire.IsZero() {
			return rInt(0)
		}
		e.expire = time.Time{}
		s.touch(a[1])
		return rInt(1)
	case "TTL", "PTTL":
		e := s.get(a[1])
		if e == nil {
			return rInt(-2)
		}
		if e.expire.IsZero() {
			return rInt(-1)
		}
		d := e.expire.Sub(s.now())
		if cmd == "TTL" {
			return rInt(int64((d + 500*time.Millisecond) / time.Second))
		}
		return rInt(int64(d / time.Millisecond))
	case "RENAME", "RENAMENX":
		e := s.get(a[1])
		if e == nil {
			return "-ERR no such key\r\n"
		}
		if cmd == "RENAMENX" && s.get(a[2]) != nil {
			return rInt(0)
		}
		if a[1] != a[2] {
			delete(s.data, a[1])
			s.data[a[2]] = e
			s.touch(a[1])
			s.touch(a[2])
		}
		if cmd == "RENAMENX" {
			return rInt(1)
		}
		return rOK
	case "COPY":
		e := s.get(a[1])
		if e == nil {
			return rInt(0)
		}
		replace := len(a) > 3 && strings.ToUpper(a[3]) == "REPLACE"
		if s.get(a[2]) != nil && !replace {
			return rInt(0)
		}
		n := &entry{expire: e.expire, str: e.str}
		if e.hash != nil {
			n.hash = map[string]string{}
			for k, v := range e.hash {
				n.hash[k] = v
			}
		}
		s.data[a[2]] = n
		s.touch(a[2])
		return rInt(1)
	case "TYPE":
		e := s.get(a[1])
		switch {
		case e == nil:
			return "+none\r\n"
		case e.hash != nil:
			return "+hash\r\n"
		case e.set != nil:
			return "+set\r\n"
		}
		return "+string\r\n"
	case "SET", "SETNX", "SETEX", "PSETEX":
		val := a[2]
		if cmd == "SETEX" || cmd == "PSETEX" {
			val = a[3]
		}
		old := s.get(a[1])
		e := &entry{str: &val}
		nx, xx := cmd == "SETNX", false
		ms := func(x string, unit time.Duration) {
			v, _ := strconv.ParseInt(x, 10, 64)
			e.expire = time.UnixMilli(s.now().UnixMilli() + v*int64(unit/time.Millisecond))
		}
		switch cmd {
		case "SETEX":
			ms(a[2], time.Second)
		case "PSETEX":
			ms(a[2], time.Millisecond)
		case "SET":
			for i := 3; i < len(a); i++ {
				switch strings.ToUpper(a[i]) {
				case "NX":
					nx = true
				case "XX":
					xx = true
				case "EX":
					ms(a[i+1], time.Second)
					i++
				case "PX":
					ms(a[i+1], time.Millisecond)
					i++
				case "KEEPTTL":
					if old != nil {
						e.expire = old.expire
					}
				}
			}
		}
		if nx && old != nil || xx && old == nil {
			if cmd == "SETNX" {
				return rInt(0)
			}
			return rNil
		}
		s.data[a[1]] = e
		s.touch(a[1])
		if cmd == "SETNX" {
			return rInt(1)
		}
		return rOK
	case "GET", "GETDEL":
		e := s.get(a[1])
		if e == nil {
			return rNil
		}
		if e.str == nil {
			return rWrong
		}
		if cmd == "GETDEL" {
			delete(s.data, a[1])
			s.touch(a[1])
		}
		return rBulk(*e.str)
	case "INCR":
		e := s.get(a[1])
		if e == nil {
			z := "0"
			e = &entry{str: &z}
			s.data[a[1]] = e
		}
		if e.str == nil {
			return rWrong
		}
		v, _ := strconv.ParseInt(*e.str, 10, 64)
		x := fmt.Sprint(v + 1)
		e.str = &x
		s.touch(a[1])
		return rInt(v + 1)
	case "SADD", "SREM", "SMEMBERS", "SISMEMBER", "SCARD":
		e := s.get(a[1])
		if e != nil && e.set == nil {
			return rWrong
		}
		if e == nil {
			e = &entry{set: map[string]bool{}}
			if cmd == "SADD" {
				s.data[a[1]] = e
			}
		}
		var d int64
		switch cmd {
		case "SADD":
			for _, m := range a[2:] {
				if !e.set[m] {
					e.set[m] = true
					d++
				}
			}
		case "SREM":
			for _, m := range a[2:] {
				if e.set[m] {
					delete(e.set, m)
					d++
				}
			}
			if len(e.set) == 0 {
				delete(s.data, a[1])
			}
		case "SISMEMBER":
			if e.set[a[2]] {
				d = 1
			}
			return rInt(d)
		case "SCARD":
			return rInt(int64(len(e.set)))
		case "SMEMBERS":
			var r []string
			for m := range e.set {
				r = append(r, m)
			}
			sort.Strings(r)
			return rArr(r)
		}
		if d > 0 {
			s.touch(a[1])
		}
		return rInt(d)
	case "FLUSHDB":
		for _, k := range s.Keys() {
			delete(s.data, k)
			s.touch(k)
		}
		return rOK
	}
	s.Unsupported = cmd
	return "-ERR unsupported\r\n"
}

var _ = errors.New
