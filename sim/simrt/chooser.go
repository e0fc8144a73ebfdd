package simrt

import "time"

// Chooser is the only source of decisions of a run.  It draws from a seeded
// generator or plays back a recorded list; past the end of the list every
// decision is 0, the simplest one (go on, no fault).
type Chooser struct {
	state  uint64
	list   []int32
	replay bool
	pos    int
	Rec    []int32
}

// NewChooser draws decisions from seed.
func NewChooser(seed uint64) *Chooser { return &Chooser{state: seed*0x9E3779B97F4A7C15 + 0x1234567} }

// Playback replays recorded decisions.
func Playback(list []int32) *Chooser { return &Chooser{list: list, replay: true} }

//go:norace
func (c *Chooser) rnd() uint64 {
	c.state += 0x9E3779B97F4A7C15
	z := c.state
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

//go:norace
func (c *Chooser) next(gen func() int32) int32 {
	var v int32
	if c.replay {
		if c.pos < len(c.list) {
			v = c.list[c.pos]
		}
		c.pos++
	} else {
		v = gen()
	}
	c.Rec = append(c.Rec, v)
	return v
}

// Choose returns a number in [0,n).
//
//go:norace
func (c *Chooser) Choose(n int, what string) int {
	if n <= 1 {
		return 0
	}
	v := int(c.next(func() int32 { return int32(c.rnd() % uint64(n)) }))
	if v < 0 || v >= n {
		v = 0
	}
	return v
}

// Chance is true in perMille of 1000 cases.
//
//go:norace
func (c *Chooser) Chance(perMille int, what string) bool {
	if perMille <= 0 {
		return false
	}
	return c.next(func() int32 {
		if int(c.rnd()%1000) < perMille {
			return 1
		}
		return 0
	}) == 1
}

// Gap draws the number of yield points until the next preemption, with the
// given mean; 0 means none.
//
//go:norace
func (c *Chooser) Gap(mean int) int {
	v := c.next(func() int32 {
		g := int32(1)
		// geometric with mean `mean`
		p := uint64(1<<32) / uint64(mean)
		for c.rnd()&0xffffffff >= p && g < int32(mean*8) {
			g++
		}
		return g
	})
	if v < 0 {
		v = 0
	}
	return int(v)
}

// Duration draws a duration up to max, small ones preferred.
//
//go:norace
func (c *Chooser) Duration(max time.Duration, what string) time.Duration {
	if max <= 0 {
		return 0
	}
	steps := []time.Duration{max / 1000, max / 100, max / 10, max / 3, max}
	i := c.Choose(len(steps), what)
	j := c.Choose(8, what)
	return steps[i] * time.Duration(8-j) / 8
}
