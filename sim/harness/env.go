package harness

import "time"

// Where and when a run takes place.

var zones = []*time.Location{
	time.UTC, time.FixedZone("east", 14*3600), time.FixedZone("west", -12*3600), time.FixedZone("half", 5*3600+1800),
	zone("America/New_York"), zone("Europe/Berlin"),
}

const zoneNewYork, zoneBerlin = 4, 5

func zone(name string) *time.Location {
	l, e := time.LoadLocation(name)
	if e != nil {
		return time.FixedZone(name, 3600)
	}
	return l
}

// moments at which representations of time change.
var moments = []time.Time{
	time.Date(2001, 9, 9, 1, 46, 40, 0, time.UTC),   // ten digits
	time.Date(2026, 3, 8, 7, 0, 0, 0, time.UTC),     // summer time begins in New York
	time.Date(2026, 11, 1, 6, 0, 0, 0, time.UTC),    // and ends
	time.Date(2027, 3, 28, 1, 0, 0, 0, time.UTC),    // in Berlin
	time.Date(2027, 10, 31, 1, 0, 0, 0, time.UTC),   // and ends
	time.Date(2028, 2, 29, 0, 0, 0, 0, time.UTC),    // a leap day
	time.Date(2029, 1, 1, 0, 0, 0, 0, time.UTC),     // a new year
	time.Date(2038, 1, 19, 3, 14, 8, 0, time.UTC),   // 2^31 s
	time.Date(2106, 2, 7, 6, 28, 16, 0, time.UTC),   // 2^32 s
	time.Date(2004, 11, 3, 19, 53, 47, 0, time.UTC), // 2^40 ms
	time.Date(2033, 5, 18, 3, 33, 20, 0, time.UTC),  // 2*10^9
	time.Date(2116, 2, 20, 23, 53, 38, 0, time.UTC), // 2^62 ns
}

// zoneOf is the time zone of a phase: another process may run in another one.
func zoneOf(z, phase int) *time.Location { return zones[(z-1+phase)%len(zones)] }

// surroundings sets the calendar, the time zone and what callers do with their
// contexts.
func (p *Plan) surroundings(r *rng) {
	if p.Opts == nil {
		p.Opts = map[string]int{}
	}
	if r.p(20) || p.Prop == "C08" && r.p(20) {
		p.Opts["ctx"] = 1
	}
	if r.p(10) {
		i := r.n(len(moments))
		switch i {
		case 1, 2:
			p.Opts["zone"] = 1 + zoneNewYork
		case 3, 4:
			p.Opts["zone"] = 1 + zoneBerlin
		}
		at := moments[i].Sub(time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC))
		at -= time.Duration(r.n(int(3*time.Duration(p.Cfg.Refresh)/time.Second)+2)) * time.Second
		p.Opts["epoch"] = int(at / time.Second)
	}
	if p.lasting() && r.p(6) {
		p.forever(r)
	}
	if p.Opts["zone"] == 0 && r.p(12) {
		p.Opts["zone"] = 1 + r.n(len(zones))
	}
}

// lasting reports whether a run need not wait for its sessions to die.
func (p *Plan) lasting() bool {
	switch p.Prop {
	case "C02", "C03", "C04", "C05", "C06", "C10", "C12", "C14", "C15":
		return p.Kind != "burst"
	}
	return false
}

// forever makes the sessions of a run last as long as can be said.
func (p *Plan) forever(r *rng) {
	d := pick(r, Dur(1<<63-1), Dur(1<<63-1), Dur(1<<63-2), Dur(1<<63-500000), Dur(250*365*24*hr), Dur(100*365*24*hr))
	both := r.p(50)
	set := func(c *Cfg) {
		c.Refresh = d
		if both {
			c.Access = d
		}
		c.Rules = nil
	}
	set(&p.Cfg)
	for i := range p.Phases {
		if c := p.Phases[i].Cfg; c != nil {
			set(c)
		}
	}
}

// horizon is a simulated time by which a run of p has ended unless it hangs.
func (p *Plan) horizon() time.Duration {
	var last, sum time.Duration
	see := func(ops []Op) {
		for i := range ops {
			last = max(last, time.Duration(ops[i].At))
			sum += time.Duration(ops[i].D)
		}
	}
	for _, ph := range p.Phases {
		last = max(last, time.Duration(ph.OpenAt))
		see(ph.Setup)
		for _, c := range ph.Clients {
			see(c)
		}
	}
	return max(2000*24*time.Hour, 2*(last+sum))
}
