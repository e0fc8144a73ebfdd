package main

import (
	"encoding/json"
	"time"
)

// These mirror the harness's types, as far as the driver looks into them.

type raw = json.RawMessage

type sched struct {
	Gap      int    `json:"gap"`
	PCT      bool   `json:"pct,omitempty"`
	Stall    int    `json:"stall,omitempty"`
	Freeze   int    `json:"freeze,omitempty"`
	MaxStall string `json:"maxstall,omitempty"`
}

type phase struct {
	Cfg     raw     `json:"cfg,omitempty"`
	OpenAt  string  `json:"openat,omitempty"`
	Setup   []raw   `json:"setup,omitempty"`
	Clients [][]raw `json:"clients,omitempty"`
	Settle  string  `json:"settle,omitempty"`
	Final   []raw   `json:"final,omitempty"`
	End     string  `json:"end"`
}

type plan struct {
	Prop   string                            `json:"prop"`
	Kind   string                            `json:"kind"`
	Cfg    raw                               `json:"cfg"`
	Sched  sched                             `json:"sched"`
	Faults map[string]map[string]interface{} `json:"faults"`
	Phases []phase                           `json:"phases"`
	Opts   map[string]int                    `json:"opts,omitempty"`
}

func (p *plan) clone() *plan {
	b, e := json.Marshal(p)
	if e != nil {
		panic(e)
	}
	var q plan
	if e := json.Unmarshal(b, &q); e != nil {
		panic(e)
	}
	return &q
}

func (p *plan) ops() (n int) {
	for i := range p.Phases {
		n += len(p.Phases[i].Setup) + len(p.Phases[i].Final)
		for _, c := range p.Phases[i].Clients {
			n += len(c)
		}
	}
	return
}

type job struct {
	Mode    string
	Prop    string
	Seed    uint64
	From    int64
	Stride  int64
	Until   int64
	Max     int64
	Trace   bool
	Cases   []*simCase
	Out     string
	Sites   []string
	Full    bool
	MaxViol int
	Known   []knownRe
	RaceLog string
	Mark    string
}

type simCase struct {
	Plan    *plan
	Choices []int32
	Seed    uint64
}

type violation struct {
	Prop  string `json:"prop"`
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type result struct {
	Violations []violation
	History    []raw
	Lines      []string
	Steps      int64
	Switches   int64
	Hash       uint64
	SimTime    time.Duration
	Log        []string
	Leaked     bool
	Error      string
	Rec        []int32
}

type sum struct {
	Runs, Steps, Switches, Ops int64
	SimTime                    float64
	Hashes                     []uint64
	Faults, Probes             map[string]int64
	Kinds                      map[string]int64
	Inconclusive               int64
	Next                       int64
	Errors                     []string
	Sample                     raw
}

type line struct {
	Index  int64
	Seed   uint64
	Plan   *plan
	Res    *result
	Sum    *sum
	Case   int
	Leaked bool
}
