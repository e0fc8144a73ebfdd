package harness

import (
	"strings"
	"unicode/utf8"
)

// The generators name things u1, a and s.; some runs use other names.

var idNames = [][3]string{
	{"s", "ss", "sess"}, {"u1", "u1-s0", "u1-s0-x1"}, {"u*", "u?", "u1"}, {"[u1]", "u", "1"}, {`\`, `\\`, "*"},
	{"U1", "u1 ", " u1"}, {"id\x00", "id", "id\x00\x00"}, {"ü", "\xff", "u"}, {"provider", "redis", "sessionid"},
	{"%s", "%d", "$1"}, {"???", ">>>", "??>"}, {"1", "11", "111"}, {"-", "--", "u-"}, {"a:b", "a", "a:"},
	{strings.Repeat("L", 63), strings.Repeat("L", 64), strings.Repeat("L", 65)},
	{strings.Repeat("m", 127), strings.Repeat("m", 128), strings.Repeat("m", 300)},
	{strings.Repeat("n", 255), strings.Repeat("n", 256), strings.Repeat("n", 257)},
}

var keyNames = [][3]string{
	{"A", "a", "aa"}, {"*", "?", "[a]"}, {"a\x00", "a", "\x00"}, {"ü", "\xff", "\xfe"}, {" ", "a ", " a"}, {"a.b", "a", "."},
	{"Access", "Refresh", "ID"}, {"__private_provider_", "__private_provider_redis_", "__private"}, {"0", "00", "1"},
	{strings.Repeat("K", 64), strings.Repeat("K", 65), strings.Repeat("K", 300)}, {"%s", "%d", "nil"},
}

var redisSpaces = []Str{"", "s", "u1", "a*", "[s]", "s:", `\`, "sessionid.provider.redis.", "%d.", "\xff."}
var boltSpaces = []Str{"u1", "metadata", "\xff", "a b", "sessionid.provider", "*"}

// coded tells whether a provider of the plan uses the coder n.
func (p *Plan) coded(n int) bool {
	for i := range p.Phases {
		if c := p.Phases[i].Cfg; c != nil && c.Coder == n {
			return true
		}
	}
	return p.Cfg.Coder == n
}

// rename gives the ids, the keys and the store of the plan other names.
func (p *Plan) rename(r *rng) {
	ids, keys := map[string]string{}, map[Str]Str{}
	used := map[string]bool{"a": true, "b": true, "c": true}
	if r.p(8) && p.Cfg.MetaKey == "" {
		n := keyNames[r.n(len(keyNames))]
		k := r.n(3)
		for i, x := range []Str{"a", "b", "c"} {
			keys[x] = Str(n[(i+k)%3])
			used[n[i]] = true
		}
	}
	if r.p(12) {
		n := idNames[r.n(len(idNames))]
		// the JSON coder cannot carry every string, and the checks of the store
		// tell an id from a key by its name
		for p.coded(1) && !utf8.ValidString(n[0]+n[1]+n[2]) || used[n[0]] || used[n[1]] || used[n[2]] {
			n = idNames[r.n(len(idNames))]
		}
		k := r.n(3)
		for i, x := range []string{"u1", "u2", "u3"} {
			ids[x] = n[(i+k)%3]
		}
	}
	space := Str("s.")
	if r.p(10) {
		switch p.Cfg.Backend {
		case "redis":
			space = pick(r, redisSpaces...)
		case "bolt":
			space = pick(r, boltSpaces...)
		}
	}
	if len(ids) > 0 || len(keys) > 0 {
		ops := func(l []Op) {
			for i := range l {
				o := &l[i]
				if x, ok := ids[string(o.ID)]; ok {
					o.ID = Str(x)
				}
				for _, t := range []*Str{&o.T, &o.R, &o.NT, &o.NR} {
					if id, rest, ok := strings.Cut(string(*t), "."); ok && ids[id] != "" {
						*t = Str(ids[id] + "." + rest)
					}
				}
				ks := append([]Str(nil), o.Keys...)
				for j, k := range ks {
					if x, ok := keys[k]; ok {
						ks[j] = x
					}
				}
				if ks != nil {
					o.Keys = ks
				}
			}
		}
		for i := range p.Phases {
			ph := &p.Phases[i]
			ops(ph.Setup)
			ops(ph.Final)
			for _, l := range ph.Clients {
				ops(l)
			}
		}
	}
	if space != "s." {
		cfg := func(c *Cfg) {
			if c != nil && len(c.Spaces) == 1 && c.Spaces[0] == "s." {
				c.Spaces = []Str{space}
			}
		}
		cfg(&p.Cfg)
		for i := range p.Phases {
			cfg(p.Phases[i].Cfg)
		}
	}
}
