package main

import (
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/liujiangwei/xxcache"
	"github.com/liujiangwei/xxcache/zzverif/vs"
)

// ---- C34: replication trouble ----

// titem is something the master sends on the link: a command it executed, or bytes that mean nothing.
type titem struct {
	args []string
	raw  string
	n    int // repeated
}

func (x titem) String() string {
	s := short(x.raw)
	if x.args != nil {
		s = reqString(x.args)
	}
	if x.n > 1 {
		s += fmt.Sprintf(" x%d", x.n)
	}
	return s
}

const (
	endNone  = iota // the link stays up
	endClose        // the master closes it after the last item
	endReset
	endGarbage // bytes that are no message, then the end
	endStuck   // bytes that are no message, the link stays up
	endWrite   // writing on the link fails from the start, reading goes on
	endWriteL  // writing fails after the last item, reading goes on
)

var endNames = []string{"the link stays up", "the master closes the link", "the link is reset", "garbage, then the end", "garbage", "writing fails from the beginning", "writing fails at the end"}

type troubleCase struct {
	items  []titem
	end    int
	cut    int // the link ends after this many bytes of the items, -1 not
	early  bool
	down   bool // the master accepts no connections afterwards
	pieces int
	sets   int // sets in the snapshot, which the cache does not support
	batch  bool
}

func (tc *troubleCase) String() string {
	var l []string
	for _, x := range tc.items {
		l = append(l, x.String())
	}
	s := strings.Join(l, "; ") + ": " + endNames[tc.end]
	if tc.cut >= 0 {
		s += fmt.Sprintf(", after %d bytes", tc.cut)
	}
	if tc.early {
		s += ", arriving with the snapshot"
	}
	if tc.batch {
		s += ", arriving at once"
	}
	if tc.pieces > 0 {
		s += fmt.Sprintf(", at most %d bytes per read", tc.pieces)
	}
	if tc.sets > 0 {
		s += fmt.Sprintf(", %d sets in the snapshot", tc.sets)
	}
	if tc.down {
		s += ", then the master is down"
	}
	return s
}

const garbage = "?what\r\n"

// emit sends the items; it returns the number of bytes sent by complete items.
func (tc *troubleCase) emit(m *rmaster, pause func()) {
	s := m.conn
	start := len(s.in)
	budget := func() bool { return tc.cut < 0 || len(s.in)-start < tc.cut }
	for _, x := range tc.items {
		for i := 0; i < x.n || i == 0; i++ {
			if !budget() {
				break
			}
			before, bl := len(s.in), copyLocal(m.local)
			bd := m.dbs
			if x.args != nil {
				var db [2]map[string]*rkey
				for d := range m.dbs {
					db[d] = map[string]*rkey{}
					for k, v := range m.dbs[d] {
						db[d][k] = v.clone()
					}
				}
				bd = db
				if m.exec(m.curdb(), x.args).k == '-' {
					m.prop(m.curdb(), x.args...)
				}
			} else {
				s.send(x.raw)
				if strings.HasPrefix(x.raw, "*2\r\n$6\r\nSELECT") {
					m.sdb = int(x.raw[len(x.raw)-3] - '0')
				}
			}
			if tc.cut >= 0 && len(s.in)-start > tc.cut {
				// only part of it arrives: as far as the replica is concerned it did not happen
				s.in = s.in[:start+tc.cut]
				if len(s.in) > before || true {
					m.local = bl
					m.dbs = bd
				}
			}
			if pause != nil {
				pause()
			}
		}
	}
}

func copyLocal(l map[string]string) map[string]string {
	c := map[string]string{}
	for k, v := range l {
		c[k] = v
	}
	return c
}

// curdb is the database the stream is in.
func (m *rmaster) curdb() int {
	if m.sdb == 1 {
		return 1
	}
	return 0
}

func (tc *troubleCase) finish(m *rmaster) {
	s := m.conn
	switch tc.end {
	case endClose:
		s.drop(io.EOF)
	case endReset:
		s.drop(errReset)
	case endGarbage:
		s.send(garbage)
		s.drop(io.EOF)
	case endStuck:
		s.send(garbage)
	case endWriteL:
		s.werr = errPipe
	}
}

func (tc *troubleCase) up() bool {
	return tc.end == endNone
}

// readable: what the master still sends reaches the client.
func (tc *troubleCase) readable() bool {
	return tc.cut < 0 && (tc.end == endNone || tc.end == endWrite || tc.end == endWriteL)
}

func troubleRun(tc *troubleCase) (*vs.Sched, string) {
	msg := ""
	n := &fakeNet{pieces: tc.pieces}
	file := scratchFile("trouble.rdb")
	s, bad := netRun(nil, false, 2000000, n, func() {
		m := newMaster(3)
		m.attach(n)
		m.exec(0, []string{"set", "a", "1"})
		m.exec(0, []string{"set", "b", "keep"})
		m.exec(0, []string{"hset", "h", "f", "v"})
		m.nsets = tc.sets
		m.sync = func() {
			if tc.end == endWrite {
				m.conn.werr = errPipe
			}
			if tc.early {
				tc.emit(m, nil)
				tc.finish(m)
			}
		}
		cl, err := xxcache.New(xxcache.Option{RedisMasterAddr: "m:1", RedisRdbFile: file})
		if err != nil {
			msg = "New fails: " + err.Error()
			return
		}
		vs.WaitQuiescent()
		if !tc.early {
			pause := vs.WaitQuiescent
			if tc.batch {
				pause = nil
			}
			tc.emit(m, pause)
			tc.finish(m)
		}
		vs.WaitQuiescent()
		m.down = tc.down
		if msg = tc.calls(m, n, &cl, "right afterwards"); msg != "" {
			return
		}
		// half a minute passes
		acks := m.acks
		for i := 1; i <= 30; i++ {
			vs.Advance(time.Second)
			vs.WaitQuiescent()
			if i%10 == 0 {
				if tc.up() && m.acks == acks {
					msg = fmt.Sprintf("no acknowledgement arrives between %d and %d seconds later", i-10, i)
					return
				}
				acks = m.acks
			}
		}
		if msg = tc.calls(m, n, &cl, "half a minute later"); msg != "" {
			return
		}
		switch tc.end {
		case endClose, endReset, endGarbage, endStuck:
			if !m.conn.closed {
				msg = "nothing can be read from the link any more, and half a minute later it is still open"
				return
			}
		}
		if tc.readable() && !tc.down {
			if m.sdb == 1 {
				m.exec(0, []string{"set", "zz", "back"})
			}
			m.exec(0, []string{"set", "a", "late"})
			m.exec(0, []string{"set", "new", "key"})
			vs.WaitQuiescent()
			m.down = true
			for _, k := range []string{"a", "new"} {
				v, err := cl.Get(k)
				if err != nil || v != m.dbs[0][k].s {
					msg = fmt.Sprintf("a command streamed half a minute later is not applied: Get(%q) is %q, %v, want %q", k, v, err, m.dbs[0][k].s)
					return
				}
			}
			m.down = false
		}
		if tc.up() {
			acks = m.acks
			for i := 0; i < 10; i++ {
				vs.Advance(time.Second)
				vs.WaitQuiescent()
			}
			if m.acks == acks {
				msg = "acknowledgements have stopped"
				return
			}
		}
		if !tc.down {
			r, err := cl.Set("a", "mine")
			if err != nil || r != "OK" {
				msg = fmt.Sprintf("Set returns %q, %v", r, err)
			}
		}
	})
	if bad != "" {
		msg = bad
	}
	return s, msg
}

// calls checks that the client answers.
func (tc *troubleCase) calls(m *rmaster, n *fakeNet, cl *xxcache.Client, when string) string {
	// what was applied is served from the cache even when nobody else could
	was := m.down
	m.down = true
	for _, k := range []string{"a", "b", "c"} {
		want, ok := m.local[k]
		if !ok {
			continue
		}
		if v, err := cl.Get(k); err != nil || v != want {
			m.down = was
			return fmt.Sprintf("%s a replicated command is not applied: Get(%q) is %q, %v, want %q", when, k, v, err, want)
		}
	}
	m.down = was
	v, err := cl.Get("nosuch")
	if err == nil {
		return fmt.Sprintf("%s Get of a missing key is %q", when, v)
	}
	if !tc.down {
		for _, k := range []string{"a", "b", "c"} {
			if m.local[k] != "" || m.get(0, k) == nil || m.get(0, k).kind != "string" {
				continue
			}
			v, err := cl.Get(k)
			if err != nil || v != m.get(0, k).s {
				return fmt.Sprintf("%s Get(%q) is %q, %v, the master holds %s", when, k, v, err, m.get(0, k))
			}
		}
	} else if _, err := cl.Set("q", "x"); err == nil {
		return when + " Set succeeds although the master is down"
	}
	return badReq(n)
}

func troubleItems() []titem {
	return []titem{
		{args: []string{"set", "a", "2"}},
		{args: []string{"set", "c", "three"}},
		{args: []string{"lpush", "x", "1"}},
		{args: []string{"append", "b", "!"}},
		{args: []string{"del", "a"}},
		{args: []string{"rpush", "a", "wrong"}},
		{args: []string{"hmset", "b", "wrong", "type"}},
		{raw: bulks("foo", "bar").enc()},
		{raw: bulks("PING").enc()},
		{raw: bulks("").enc()},
		{raw: "+OK\r\n"},
		{raw: ":5\r\n"},
		{raw: "$3\r\nset\r\n"},
		{raw: "$-1\r\n"},
		{raw: "*0\r\n"},
		{raw: "*1\r\n*0\r\n"},
		{raw: "*1\r\n$-1\r\n"},
		{raw: "*2\r\n*1\r\n$3\r\nset\r\n$1\r\nz\r\n"},
		{raw: "*3\r\n$3\r\nset\r\n$-1\r\n$-1\r\n"},
		{raw: "*3\r\n$5\r\nhmset\r\n:7\r\n*2\r\n:1\r\n$-1\r\n"},
		{raw: bulks("set").enc()},
		{raw: bulks("del").enc()},
		{raw: bulks("set", "z").enc()},
		{raw: bulks("mset", "z").enc()},
		{raw: bulks("eval").enc()},
		{raw: bulks("eval", "x", "-5").enc()},
		{raw: bulks("eval", "x", "99999999999999999999", "z").enc()},
		{raw: bulks("eval", "x", "9223372036854775807", "z").enc()},
		{raw: bulks("sort", "z", "store").enc()},
		{raw: bulks("SELECT", "1").enc()},
		{raw: bulks("SELECT", "0").enc()},
		{raw: bulks("SELECT", "x").enc()},
		{raw: bulks("SELECT").enc()},
		{raw: bulks("MULTI").enc()},
		{raw: bulks("replconf", "getack", "*").enc()},
		{raw: bulks("set", strings.Repeat("K", 9000), strings.Repeat("V", 9000)).enc()},
	}
}

func c34tasks(t bool) (tasks []Task) {
	al := troubleItems()
	run := func(c *Ctx, tc *troubleCase) bool {
		c.R.Evals++
		c.R.Traces++
		c.R.States++
		c.R.Distinct++
		c.Case(tc.String)
		s, msg := troubleRun(tc)
		c.R.Transitions += s.Steps
		if msg != "" {
			return c.Violate(tc.String(), tc.String()+": "+msg, nil)
		}
		return false
	}
	ends := []int{endNone, endClose, endReset, endGarbage, endStuck, endWrite, endWriteL}
	var every func(c *Ctx, items []titem, all bool) bool
	every = func(c *Ctx, items []titem, all bool) bool {
		for _, e := range ends {
			for v := 0; v < 3; v++ {
				if !all && (v+e)%3 != len(items)%3 {
					continue
				}
				for d := 0; d < 2; d++ {
					if c.Stop() || run(c, &troubleCase{items: items, end: e, cut: -1, early: v == 1, batch: v == 2, down: d == 1}) {
						return true
					}
				}
			}
		}
		return false
	}
	for k := range al {
		k := k
		tasks = append(tasks, Task{"streams " + al[k].String(), func(c *Ctx) {
			if k == 0 && every(c, nil, true) {
				return
			}
			if every(c, []titem{al[k]}, true) {
				return
			}
			for _, b := range al {
				if every(c, []titem{al[k], b}, t) {
					return
				}
				if t {
					for _, d := range al {
						if every(c, []titem{al[k], b, d}, false) {
							return
						}
					}
				}
			}
			c.Sample((&troubleCase{items: []titem{al[k], al[3]}, end: endGarbage, cut: -1, down: true}).String())
		}})
	}
	cutStreams := [][]titem{
		{al[0], al[2], al[1]},
		{al[2], al[3], al[0], al[4]},
		{al[7], al[29], al[0], al[30], al[1]},
		{al[5], al[10], al[1], al[19]},
		{{args: []string{"set", "a", "x\r\n$3"}}, al[14], {args: []string{"flushall"}}, al[1]},
		{al[34], al[33], al[0]},
	}
	for i := range cutStreams {
		st := cutStreams[i]
		tasks = append(tasks, Task{fmt.Sprintf("cuts-%d", i), func(c *Ctx) {
			size := 0
			for _, x := range st {
				if x.args != nil {
					size += len(bulks(x.args...).enc())
				} else {
					size += len(x.raw)
				}
			}
			size += 30
			for cut := 0; cut < size; cut++ {
				for _, e := range []int{endClose, endReset, endNone} {
					for v := 0; v < 3; v++ {
						for d := 0; d < 2; d++ {
							p := 0
							if (cut+v)%2 == 0 {
								p = 1 + v
							}
							if c.Stop() || run(c, &troubleCase{items: st, end: e, cut: cut, early: v == 1, batch: v == 2, down: d == 1, pieces: p}) {
								return
							}
						}
					}
				}
			}
			c.Sample((&troubleCase{items: st, end: endReset, cut: 17}).String())
		}})
	}
	tasks = append(tasks, Task{"many", func(c *Ctx) {
		ns := []int{1, 2, 3, 5, 10, 50, 200, 1000}
		for _, x := range []titem{al[2], al[5], al[7], al[15], al[10], al[17]} {
			for _, n := range ns {
				for _, e := range ends {
					for v := 0; v < 3; v++ {
						y := x
						y.n = n
						if c.Stop() || run(c, &troubleCase{items: []titem{y, al[0], al[1]}, end: e, cut: -1, early: v == 1, batch: v == 2, down: e%2 == 1}) {
							return
						}
					}
				}
			}
		}
		c.Sample("1000 unsupported commands in a row")
	}})
	for _, n := range []int{9999, 10000, 10001, 12500, 25000} {
		n := n
		tasks = append(tasks, Task{fmt.Sprintf("flood-%d", n), func(c *Ctx) {
			for _, x := range []titem{al[7], al[15], al[2]} {
				for _, e := range []int{endNone, endClose, endWrite} {
					for v := 1; v < 3; v++ {
						y := x
						y.n = n
						if x.args != nil && n > 10001 && !t {
							continue
						}
						if c.Stop() || run(c, &troubleCase{items: []titem{y, al[0], al[1]}, end: e, cut: -1, early: v == 1, batch: v == 2}) {
							return
						}
					}
				}
			}
			for _, e := range []int{endNone, endReset, endWrite} {
				if c.Stop() || run(c, &troubleCase{items: []titem{al[0], al[2], al[1]}, end: e, cut: -1, early: e != endNone, sets: n}) {
					return
				}
			}
			c.Sample(fmt.Sprintf("%d unsupported commands in a row, %d unsupported keys in the snapshot", n, n))
		}})
	}
	// schedules
	var scs []*troubleSched
	for _, st := range [][]titem{{al[0]}, {al[7], al[0]}, {al[2], al[7], al[1]}, {al[10], al[0]}, {}, {al[5], al[4], al[1]}} {
		for _, e := range ends {
			for _, early := range []bool{false, true} {
				p := 1
				if t {
					p = 2
				}
				if !t && len(st) == 3 && (early || e != endNone && e != endClose && e != endWrite) {
					continue
				}
				scs = append(scs, &troubleSched{items: st, end: e, early: early, preempt: p})
			}
		}
	}
	var first []Task
	for i := len(scs) - 1; i >= 0; i-- { // the largest first
		sc := scs[i]
		first = append(first, Task{fmt.Sprintf("schedules-%d", i), func(c *Ctx) {
			c.Sample(sc.String())
			exploreNet(c, sc.String(), &vs.Explorer{Preempt: sc.preempt, MaxExec: 200000}, func(e *vs.Explorer) (*vs.Sched, string) { return schedRun(sc, e) })
		}})
	}
	return append(first, tasks...)
}

// troubleSched explores the interleavings of the master, the client's goroutines, the clock and a caller.
type troubleSched struct {
	items   []titem
	end     int
	early   bool
	preempt int
}

func (sc *troubleSched) String() string {
	return "interleavings of " + (&troubleCase{items: sc.items, end: sc.end, cut: -1, early: sc.early}).String() + ", a clock tick and a Get"
}

func schedRun(sc *troubleSched, e *vs.Explorer) (*vs.Sched, string) {
	msg := ""
	n := &fakeNet{}
	tc := &troubleCase{items: sc.items, end: sc.end, cut: -1}
	s, bad := netRun(e, false, 20000, n, func() {
		m := newMaster(3)
		m.attach(n)
		m.exec(0, []string{"set", "a", "1"})
		m.sync = func() {
			if sc.end == endWrite {
				m.conn.werr = errPipe
			}
			if sc.early {
				tc.emit(m, nil)
				tc.finish(m)
			}
			vs.SetBranch(true)
		}
		cl, err := xxcache.New(xxcache.Option{RedisMasterAddr: "m:1", RedisRdbFile: scratchFile("trouble.rdb")})
		if err != nil {
			msg = "New fails: " + err.Error()
			return
		}
		if !sc.early {
			tc.emit(m, func() { vs.Point("master") })
			tc.finish(m)
		}
		vs.Advance(time.Second)
		var done bool
		g := vs.GoNamed("get", func() {
			cl.Get("a")
			done = true
		})
		vs.WaitQuiescent()
		vs.SetBranch(false)
		if !done {
			msg = "Get does not return"
			return
		}
		vs.Join(g)
		acks := m.acks
		for i := 0; i < 10; i++ {
			vs.Advance(time.Second)
			vs.WaitQuiescent()
		}
		if tc.up() && m.acks == acks {
			msg = "acknowledgements have stopped"
			return
		}
		if msg = tc.calls(m, n, &cl, "ten seconds later"); msg != "" {
			return
		}
		if tc.readable() {
			m.exec(0, []string{"set", "c", "late"})
			vs.WaitQuiescent()
			m.down = true
			if v, err := cl.Get("c"); err != nil || v != "late" {
				msg = fmt.Sprintf("a command streamed later is not applied: Get is %q, %v", v, err)
			}
		}
	})
	if bad != "" {
		msg = bad
	}
	return s, msg
}

func init() {
	props["C34"] = &Prop{Tasks: c34tasks, Rule: "every stream up to the depth over an alphabet of supported, unsupported and malformed messages x every way the link ends (up, closed, reset, garbage, writes failing) x ways of arriving x master reachable or not; streams cut at every byte; floods of up to 25000 unsupported messages; all interleavings of the client's goroutines, the master, a clock tick and a caller within the preemption bound",
		Bounds: func(t bool) string {
			return fmt.Sprintf("%d messages, depth %d; preemptions %s", len(troubleItems()), pick(t, 3, 2), map[bool]string{true: "2", false: "1"}[t])
		}, Assume: []string{"an unreachable master refuses connections; acknowledgements count as going on when at least one arrives every ten seconds"}}
}
