package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/liujiangwei/xxcache/cache"
	"github.com/liujiangwei/xxcache/zzverif/vs"
)

// Universe is one bounded operation alphabet explored to a depth.
type Universe struct {
	Name   string
	Setup  []Op // executed before every history
	Ops    []Op
	Depth  int
	Plain  int // levels explored without state deduplication
	Keys   []string
	Fields []string // hash fields observed (f and g by default)
	Obs    string // commands that read every key after the history
	Probe  bool   // after the history, walk the clock over every deadline
	Sweeps int    // after the history, let this many sweeps pass: then no value of an expired key may be left in memory
	MapOrd bool   // also with reversed plain-map iteration order
}

type histNode struct {
	ops []uint16
}

func setupString(l []Op) string {
	switch n := len(l); {
	case n == 0:
		return ""
	case n > 12:
		return fmt.Sprintf("%s ; ... ; %s (%d commands) ; ", opsString(l[:2]), opsString(l[n-2:]), n)
	}
	return opsString(l) + " ; "
}

// observeOps reads what the property speaks about of the given keys.
func observeOps(keys []string, obs string, fields []string) []Op {
	var l []Op
	if len(fields) == 0 {
		fields = []string{"f", "g"}
	}
	for _, what := range strings.Fields(obs) {
		switch what {
		case "mget", "mexists":
			continue
		}
		for _, k := range keys {
			switch what {
			case "getrange":
				l = append(l, Op{C: what, K: k, A: 0, B: -1})
			case "exists":
				l = append(l, Op{C: what, L: []string{k}})
			case "hget":
				for _, f := range fields {
					l = append(l, Op{C: what, K: k, F: f})
				}
			default:
				l = append(l, Op{C: what, K: k})
			}
		}
	}
	if strings.Contains(obs, "mget") {
		l = append(l, Op{C: "mget", L: keys})
	}
	if strings.Contains(obs, "mexists") {
		l = append(l, Op{C: "exists", L: append(append([]string{}, keys...), keys...)})
	}
	return l
}

// safeApply runs one command, catching panics of the code under test.
func safeApply(c *cache.Cache, o Op) (r Res, p string) {
	p = vs.Try(func() { r = apply(c, o) })
	return
}

// execHistory runs ops on a fresh cache; cmpFrom is the first index whose result is compared
// (earlier ones were compared before). It returns a violation message, the dump and the model.
func execHistory(u *Universe, ops []Op, observe bool, mapOrd int, wantDump bool, trace func(string)) (msg, dump, mkey string) {
	vs.MapOrder = mapOrd
	horizon := 200000
	if len(u.Setup) > 50 {
		horizon = 5000000
	}
	s := vs.Run(nil, false, horizon, func() {
		c := cache.New()
		m := newModel()
		step := func(i int, o Op) bool {
			want := m.apply(o)
			got, p := safeApply(c, o)
			if o.C == "adv" || o.C == "cron" {
				vs.WaitQuiescent()
			}
			if trace != nil {
				trace(fmt.Sprintf("%s -> %s", o, got))
			}
			if p != "" {
				msg = fmt.Sprintf("%s: %s", o, p)
				return false
			}
			if !match(got, want) {
				msg = fmt.Sprintf("%s returned %s, want %s", o, got, want)
				return false
			}
			m.adopt(c, o)
			return true
		}
		n := 0
		for _, o := range u.Setup {
			if !step(n, o) {
				return
			}
			n++
		}
		for _, o := range ops {
			if !step(n, o) {
				return
			}
			n++
		}
		if wantDump {
			dump = vs.Dump(c)
			mkey = m.key()
		}
		if !observe {
			return
		}
		if u.Sweeps > 0 {
			for i := 0; i < u.Sweeps; i++ {
				m.apply(adv(2001 * ms))
				vs.Advance(2001 * ms)
				vs.WaitQuiescent()
			}
			mem := vs.Dump(c)
			var ks []string
			for k := range m.m {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			alive := ""
			for _, k := range ks {
				if v := m.m[k]; !v.hasTTL || v.until.After(m.now) {
					alive += v.s + "\n"
				}
			}
			for _, k := range ks {
				if v := m.m[k]; v.hasTTL && v.until.Before(m.now) && len(v.s) >= 6 && !strings.Contains(alive, v.s) && strings.Contains(mem, v.s) {
					msg = fmt.Sprintf("key %s expired %v ago and %d sweeps have passed, its value %s is still in memory", q(k), m.now.Sub(v.until), u.Sweeps, q(v.s))
					return
				}
			}
		}
		obs := observeOps(u.Keys, u.Obs, u.Fields)
		look := func(when string) bool {
			for _, o := range obs {
				want := m.apply(o)
				got, p := safeApply(c, o)
				if p != "" {
					msg = fmt.Sprintf("%safterwards %s: %s", when, o, p)
					return false
				}
				if !match(got, want) {
					msg = fmt.Sprintf("%safterwards %s is %s, want %s", when, o, got, want)
					return false
				}
			}
			return true
		}
		if !look("") {
			return
		}
		if u.Probe {
			var dl []time.Time
			for _, v := range m.m {
				if v.hasTTL && v.until.After(m.now) {
					dl = append(dl, v.until)
				}
			}
			sort.Slice(dl, func(i, j int) bool { return dl[i].Before(dl[j]) })
			for i, d := range dl {
				if i > 0 && d.Equal(dl[i-1]) {
					continue
				}
				ats := []time.Time{d.Add(-1), d.Add(1)}
				if d.Sub(m.now) > ages/2 {
					ats = []time.Time{m.now.Add(ages / 3)}
				}
				for _, at := range ats {
					dt := at.Sub(m.now)
					if dt <= 0 {
						continue
					}
					m.apply(Op{C: "adv", A: int64(dt)})
					vs.Advance(dt)
					vs.WaitQuiescent()
					if !look(fmt.Sprintf("%v later (deadline %+dns) ", m.now.Sub(vs.Epoch), at.Sub(d))) {
						return
					}
				}
			}
			// and a long time later
			m.apply(Op{C: "adv", A: int64(time.Hour)})
			vs.Advance(time.Hour)
			vs.WaitQuiescent()
			if !look("an hour later ") {
				return
			}
		}
	})
	if msg == "" && s.Fail != nil {
		msg = s.Fail.Kind + ": " + s.Fail.Msg
	}
	return
}

func (u *Universe) opsOf(h []uint16) []Op {
	l := make([]Op, len(h))
	for i, x := range h {
		l[i] = u.Ops[x]
	}
	return l
}

// exploreSeq explores all histories that start with u.Ops[lo:hi].
func exploreSeq(c *Ctx, u *Universe, lo, hi int) {
	seen := map[string]bool{}
	orders := []int{0}
	if u.MapOrd {
		orders = []int{0, 1}
	}
	var level []histNode
	try := func(h []uint16) bool { // false: do not extend
		ops := u.opsOf(h)
		c.Case(func() string { return opsString(append(append([]Op{}, u.Setup...), ops...)) })
		var mk string
		for _, mo := range orders {
			msg, dump, mkey := execHistory(u, ops, true, mo, mo == 0, nil)
			c.R.Evals++
			if msg != "" {
				var tr []string
				execHistory(u, ops, true, mo, false, func(s string) { tr = append(tr, s) })
				c.Violate(u.Name+": "+opsString(append(append([]Op{}, u.Setup...), ops...)), "history "+setupString(u.Setup)+opsString(ops)+": "+msg, tr)
				return false
			}
			if mo == 0 {
				mk = dump + "\x00" + mkey
			}
		}
		c.R.Transitions++
		c.R.Traces++
		if len(c.R.Samples) < 1 && len(h) >= 2 {
			c.Sample(opsString(ops))
		}
		if !seen[mk] {
			seen[mk] = true
			c.R.States++
			c.R.Distinct++
			return true
		}
		return len(h) <= u.Plain
	}
	for first := lo; first < hi; first++ {
		if c.Stop() {
			return
		}
		h := []uint16{uint16(first)}
		if try(h) && u.Depth > 1 {
			level = append(level, histNode{h})
		}
	}
	for d := 2; d <= u.Depth && !c.stop; d++ {
		var next []histNode
		for _, n := range level {
			for i := range u.Ops {
				if c.Stop() {
					return
				}
				nh := make([]uint16, len(n.ops)+1)
				copy(nh, n.ops)
				nh[len(n.ops)] = uint16(i)
				if try(nh) && d < u.Depth {
					next = append(next, histNode{nh})
				}
			}
		}
		level = next
	}
	if u.Depth > c.R.Extra["max_depth"] {
		c.Count("max_depth", u.Depth-c.R.Extra["max_depth"])
	}
}

func seqTasks(us []Universe) []Task {
	var ts []Task
	for _, u := range us {
		u := u
		chunk := (len(u.Ops) + 39) / 40
		for lo := 0; lo < len(u.Ops); lo += chunk {
			lo, hi := lo, lo+chunk
			if hi > len(u.Ops) {
				hi = len(u.Ops)
			}
			ts = append(ts, Task{Name: fmt.Sprintf("%s/%d", u.Name, lo), Run: func(c *Ctx) { exploreSeq(c, &u, lo, hi) }})
		}
	}
	return ts
}

func boundsOf(us []Universe) string {
	var l []string
	for _, u := range us {
		l = append(l, fmt.Sprintf("%s: %d commands, depth %d (first %d levels without state deduplication), setup %d", u.Name, len(u.Ops), u.Depth, u.Plain, len(u.Setup)))
	}
	return strings.Join(l, "; ")
}
