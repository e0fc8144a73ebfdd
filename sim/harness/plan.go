package harness

import (
	"encoding/json"
	"fmt"
	"time"
)

// Dur prints readably in plans.
type Dur time.Duration

func (d Dur) MarshalJSON() ([]byte, error) { return json.Marshal(time.Duration(d).String()) }
func (d *Dur) UnmarshalJSON(b []byte) error {
	var s string
	if e := json.Unmarshal(b, &s); e != nil {
		return e
	}
	v, e := time.ParseDuration(s)
	*d = Dur(v)
	return e
}

// Str is a byte string that survives JSON.
type Str string

func (s Str) MarshalJSON() ([]byte, error) {
	return json.Marshal(fmt.Sprintf("%q", string(s)))
}
func (s *Str) UnmarshalJSON(b []byte) error {
	var q, v string
	if e := json.Unmarshal(b, &q); e != nil {
		return e
	}
	if _, e := fmt.Sscanf(q, "%q", &v); e != nil {
		return e
	}
	*s = Str(v)
	return nil
}

// Op is one operation of a client.
type Op struct {
	Op   string `json:"op"`
	T    Str    `json:"t,omitempty"`  // access token
	R    Str    `json:"r,omitempty"`  // refresh token
	NT   Str    `json:"nt,omitempty"` // new access token
	NR   Str    `json:"nr,omitempty"` // new refresh token
	ID   Str    `json:"id,omitempty"`
	Keys []Str  `json:"keys,omitempty"`
	Vals []Str  `json:"vals,omitempty"`
	D    Dur    `json:"d,omitempty"`  // pause before the operation
	At   Dur    `json:"at,omitempty"` // not before this simulated time
	Inst int    `json:"inst,omitempty"`
	N    int    `json:"n,omitempty"`
	Ctx  Dur    `json:"ctx,omitempty"` // the context's deadline; negative: cancelled after that long
}

func strs(s []Str) []string {
	r := make([]string, len(s))
	for i := range s {
		r[i] = string(s[i])
	}
	return r
}

// Cfg configures the system of a run (or of one phase of it).
type Cfg struct {
	Backend  string `json:"backend"`
	Access   Dur    `json:"access"`
	Refresh  Dur    `json:"refresh"`
	MaxSize  int    `json:"maxsize"`
	Batch    int    `json:"batch"`
	Clear    Dur    `json:"clear"`
	PageSize int    `json:"pagesize,omitempty"`
	Insts    int    `json:"insts"`            // provider instances
	Spaces   []Str  `json:"spaces,omitempty"` // redis prefix or bolt bucket of each instance
	MetaKey  Str    `json:"metakey,omitempty"`
	WithDB   bool   `json:"withdb,omitempty"`
	Both     bool   `json:"both,omitempty"` // the handle and the address are given
	URL      bool   `json:"url,omitempty"`  // the provider makes its redis client
	Omit     bool   `json:"omit,omitempty"` // leave out options that say the default
	Retries  int    `json:"retries,omitempty"`
	Latency  Dur    `json:"latency,omitempty"`
	Skew     Dur    `json:"skew,omitempty"`
	Drift    int    `json:"drift,omitempty"`  // thousandths by which the redis server's clock is slow
	Coder    int    `json:"coder,omitempty"`  // of redis metadata
	OptRev   bool   `json:"optrev,omitempty"` // options in another order
	Rules    []Rule `json:"rules,omitempty"`  // the lifetime options, in order, that come to Access and Refresh
}

// Rule is one lifetime option. The later option of a pair that contradict each
// other counts: a session is never usable for longer than it can be refreshed.
type Rule struct {
	Refresh bool `json:"refresh,omitempty"`
	D       Dur  `json:"d"`
}

// lives returns the lifetimes that the rules come to.
func lives(rules []Rule) (a, r Dur) {
	a, r = Dur(time.Hour), Dur(24*time.Hour)
	for _, x := range rules {
		if x.Refresh {
			a, r = min(a, x.D), x.D
		} else {
			a, r = x.D, max(r, x.D)
		}
	}
	return
}

// Faults are the per-mille rates of injected faults.
type Faults struct {
	Disk struct {
		Write, Short, Sync, Trunc, Crash int
		PowerLoss                        bool
	} `json:"disk"`
	Net struct {
		Reset, Lost, Delay, DelayReply, Partial, Err, Dial, Crash int
		MaxDelay                                                  Dur
		Restarts                                                  int
	} `json:"net"`
}

// Sched are the scheduler's knobs.
type Sched struct {
	MeanGap  int  `json:"gap"`
	PCT      bool `json:"pct,omitempty"`
	Stall    int  `json:"stall,omitempty"`
	Freeze   int  `json:"freeze,omitempty"`
	MaxStall Dur  `json:"maxstall,omitempty"`
}

// Phase is the life of one set of provider processes.
type Phase struct {
	Cfg     *Cfg   `json:"cfg,omitempty"`    // overrides
	OpenAt  Dur    `json:"openat,omitempty"` // the processes start no earlier
	Setup   []Op   `json:"setup,omitempty"`
	Clients [][]Op `json:"clients,omitempty"`
	Settle  Dur    `json:"settle,omitempty"` // fault-free time after the clients ended
	Final   []Op   `json:"final,omitempty"`
	End     string `json:"end"` // close, kill (processes killed when the clients are done)
}

// Plan is everything about a run but the scheduler's decisions.
type Plan struct {
	Prop   string         `json:"prop"`
	Kind   string         `json:"kind"`
	Cfg    Cfg            `json:"cfg"`
	Sched  Sched          `json:"sched"`
	Faults Faults         `json:"faults"`
	Phases []Phase        `json:"phases"`
	Opts   map[string]int `json:"opts,omitempty"`
}

// Rec is one operation in the history.
type Rec struct {
	Op       Op
	Client   int
	Inst     int
	Phase    int
	Space    string
	Call     int64
	Ret      int64 // 0: the process died
	TCall    time.Duration
	TRet     time.Duration
	Res      string // ok, expired, notexists, badrefresh, badid, invalid, closed, other
	Err      string
	Vals     []string // "-" absent, "+value"
	Keys     []string
	CrashSeq int64 // when the process died
	Faulty   bool  // faults were possible during the operation
	Panic    string
	Expect   bool // an error of the storage is the right answer
	Cfg      *Cfg
	TDied    time.Duration
}

func (r *Rec) String() string {
	res := r.Res
	if r.Ret == 0 {
		res = "(no answer: process died)"
	}
	if r.Res == "other" {
		res += "(" + r.Err + ")"
	}
	b, _ := json.Marshal(r.Op)
	s := fmt.Sprintf("[%d..%d %v..%v] p%d c%d i%d %s -> %s", r.Call, r.Ret, r.TCall, r.TRet, r.Phase, r.Client, r.Inst, b, res)
	if r.Vals != nil {
		s += fmt.Sprintf(" %q", r.Vals)
	}
	if r.Keys != nil {
		s += fmt.Sprintf(" %q", r.Keys)
	}
	return s
}

// Violation is a broken property.
type Violation struct {
	Prop  string `json:"prop"`
	Class string `json:"class"` // stable name of what is broken, for minimisation and known findings
	Msg   string `json:"msg"`
}

// Result is what one run produced.
type Result struct {
	Violations   []Violation
	History      []*Rec
	Steps        int64
	Switches     int64
	Hash         uint64
	SimTime      time.Duration
	Faults       map[string]int64
	Probes       map[string]int64
	Ops          int
	Log          []string
	Leaked       bool
	Alive        []string `json:",omitempty"`
	Error        string   // trouble with the simulation itself
	Rec          []int32
	Inconclusive int
}
