package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/liujiangwei/xxcache/cache"
	"github.com/liujiangwei/xxcache/zzverif/vs"
)

// Scenario is a small concurrent program explored over all interleavings up to a preemption bound.
type Scenario struct {
	Setup   []Op
	Threads [][]Op
	Final   []Op
	Preempt int
	NoLin   bool // only races, deadlocks and panics count
	Clock   bool // reading the clock is a scheduling point
	Cron    bool
}

func (s *Scenario) String() string {
	var l []string
	for i, t := range s.Threads {
		l = append(l, fmt.Sprintf("T%d{%s}", i+1, opsString(t)))
	}
	c := ""
	if s.Cron {
		c = "expiry service running; "
	}
	return c + "setup{" + opsString(s.Setup) + "} " + strings.Join(l, " || ")
}

type event struct {
	thread   int
	op       Op
	res      Res
	inv, ret int
	panicked string
}

// linearizable: is there an order of the events respecting real time that the model explains?
func linearizable(base *Model, evs []event, final []event) bool {
	n := len(evs)
	used := make([]bool, n)
	var rec func(m *Model, k int) bool
	rec = func(m *Model, k int) bool {
		if k == n {
			m = m.clone()
			for _, f := range final {
				if !match(f.res, m.apply(f.op)) {
					return false
				}
			}
			return true
		}
		for i := 0; i < n; i++ {
			if used[i] {
				continue
			}
			ok := true
			for j := 0; j < n; j++ {
				if !used[j] && j != i && evs[j].ret < evs[i].inv {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			nm := m.clone()
			if !match(evs[i].res, nm.apply(evs[i].op)) {
				continue
			}
			used[i] = true
			if rec(nm, k+1) {
				return true
			}
			used[i] = false
		}
		return false
	}
	return rec(base, 0)
}

func historyString(evs, final []event) string {
	var l []string
	for _, e := range evs {
		l = append(l, fmt.Sprintf("T%d %s -> %s [%d,%d]", e.thread+1, e.op, e.res, e.inv, e.ret))
	}
	for _, e := range final {
		l = append(l, fmt.Sprintf("then %s -> %s", e.op, e.res))
	}
	return strings.Join(l, "; ")
}

func exploreScenario(c *Ctx, sc *Scenario) {
	ex := &vs.Explorer{Preempt: sc.Preempt, MaxExec: 200000}
	verdict := map[string]bool{}
	name := sc.String()
	c.Case(func() string { return name })
	var lastEvs, lastFinal []event
	run := func(e *vs.Explorer) (string, *vs.Sched) {
		var evs, final []event
		var base *Model
		msg := ""
		s := vs.Run(e, false, 20000, func() {
			if sc.Clock {
				vs.S.TimeBranch = true
			}
			ch := cache.New()
			base = newModel()
			if sc.Cron {
				ch.Cron()
				vs.WaitQuiescent()
			}
			for _, o := range sc.Setup {
				want := base.apply(o)
				got, p := safeApply(ch, o)
				vs.WaitQuiescent()
				if p != "" || !match(got, want) {
					msg = fmt.Sprintf("setup %s returned %s %s, want %s", o, got, p, want)
					return
				}
			}
			seq := 0
			vs.SetBranch(true)
			var ths []*vs.Thread
			for ti, ops := range sc.Threads {
				ti, ops := ti, ops
				ths = append(ths, vs.GoNamed(fmt.Sprintf("T%d", ti+1), func() {
					for _, o := range ops {
						seq++
						ev := event{thread: ti, op: o, inv: seq}
						ev.res, ev.panicked = safeApply(ch, o)
						seq++
						ev.ret = seq
						evs = append(evs, ev)
						if ev.panicked != "" {
							return
						}
					}
				}))
			}
			vs.Join(ths...)
			vs.SetBranch(false)
			vs.S.TimeBranch = false
			vs.WaitQuiescent()
			for _, o := range sc.Final {
				r, p := safeApply(ch, o)
				if o.C == "adv" {
					vs.WaitQuiescent()
				}
				final = append(final, event{op: o, res: r, panicked: p})
			}
		})
		lastEvs, lastFinal = evs, final
		if msg != "" {
			return msg, s
		}
		if s.Fail != nil {
			return s.Fail.Kind + ": " + s.Fail.Msg, s
		}
		for _, e := range append(append([]event{}, evs...), final...) {
			if e.panicked != "" {
				return fmt.Sprintf("%s: %s", e.op, e.panicked), s
			}
		}
		if len(s.Races) > 0 {
			return "data race: " + s.Races[0], s
		}
		if sc.NoLin {
			return "", s
		}
		key := historyString(evs, final)
		ok, have := verdict[key]
		if !have {
			ok = linearizable(base, evs, final)
			verdict[key] = ok
		}
		if !ok {
			return "no sequential order explains: " + key, s
		}
		return "", s
	}
	ex.Explore(func() bool {
		c.caseNo++
		msg, s := run(ex)
		c.R.Transitions += s.Steps
		if msg != "" {
			ch := ex.Choices()
			tr := &vs.Explorer{Preempt: sc.Preempt, Tracing: true}
			var ts *vs.Sched
			tr.RunOnce(ch, func() { _, ts = run(tr) })
			c.Violate(name, name+": "+msg, map[string]interface{}{"scenario": name, "choices": ch, "schedule": ts.Trace, "history": historyString(lastEvs, lastFinal)})
			return false
		}
		return !c.Stop()
	})
	c.R.Evals += ex.Execs
	c.R.Traces += ex.Execs
	c.R.States += ex.Nodes
	c.R.Distinct += len(verdict)
	c.Count("schedules", ex.Execs)
	c.Count("scenarios", 1)
	c.Count("diverged", ex.Diverged)
	if ex.Capped {
		c.R.Capped = true
	}
	if ex.MaxPoints > c.R.Extra["max_choice_points"] {
		c.R.Extra["max_choice_points"] = ex.MaxPoints
	}
	c.Sample(name)
}

func concTasks(prefix string, scs []Scenario) []Task {
	var ts []Task
	n := 64
	if len(scs) < n {
		n = len(scs)
	}
	for i := 0; i < n; i++ {
		i := i
		ts = append(ts, Task{Name: fmt.Sprintf("%s/%d", prefix, i), Run: func(c *Ctx) {
			for j := i; j < len(scs); j += n {
				if c.Stop() {
					return
				}
				exploreScenario(c, &scs[j])
			}
		}})
	}
	return ts
}

func concProp(id string, f func(t bool) []Scenario, more func(t bool) []Universe, bounds string) {
	props[id] = &Prop{
		Tasks: func(t bool) []Task {
			ts := concTasks("conc", f(t))
			if more != nil {
				us := more(t)
				us = append(us, renamedAll(us)...)
				for i := range us {
					us[i].Obs = "get type exists hget"
				}
				ts = append(ts, seqTasks(us)...)
			}
			return ts
		},
		Bounds: func(t bool) string {
			b := fmt.Sprintf("%d scenarios; preemption bound 3 (thorough: 4; triples and 2x2 programs of the larger alphabets 2); %s", len(f(t)), bounds)
			if more != nil {
				b += "; histories: " + boundsOf(more(t))
			}
			return b
		},
		Rule: "every interleaving of the scenario's threads at synchronization operations, up to the preemption bound (switches at blocking are free); " +
			"states = nodes of the choice tree; each execution runs the real code and its call/return history is checked against the reference model by exhaustive search for a linearization, " +
			"races by vector clocks on every shared access; non-trivial = distinct call/return histories",
		Assume: []string{"sequentially consistent memory at synchronization operations; data races themselves are reported as violations",
			"two or three threads with one or two commands each stand for more", "reference model in go/harness/model.go"},
	}
}

// unordered pairs / triples / two-by-two programs
func pairs2(ops []Op) (out [][][]Op) {
	for i := range ops {
		for j := i; j < len(ops); j++ {
			out = append(out, [][]Op{{ops[i]}, {ops[j]}})
		}
	}
	return
}

func triples(ops []Op) (out [][][]Op) {
	for i := range ops {
		for j := i; j < len(ops); j++ {
			for k := j; k < len(ops); k++ {
				out = append(out, [][]Op{{ops[i]}, {ops[j]}, {ops[k]}})
			}
		}
	}
	return
}

func twoByTwo(ops []Op) (out [][][]Op) {
	var seqs [][]Op
	for _, a := range ops {
		for _, b := range ops {
			seqs = append(seqs, []Op{a, b})
		}
	}
	for i := range seqs {
		for j := i; j < len(seqs); j++ {
			out = append(out, [][]Op{seqs[i], seqs[j]})
		}
	}
	return
}

func twoByOne(a, b []Op) (out [][][]Op) {
	for _, x := range a {
		for _, y := range a {
			for _, z := range b {
				out = append(out, [][]Op{{x, y}, {z}})
			}
		}
	}
	return
}

func cross(a, b []Op) (out [][][]Op) {
	for _, x := range a {
		for _, y := range b {
			out = append(out, [][]Op{{x}, {y}})
		}
	}
	return
}

func scen(p int, setups [][]Op, progs [][][]Op, final []Op, mod func(*Scenario)) (out []Scenario) {
	for _, s := range setups {
		for _, t := range progs {
			sc := Scenario{Setup: s, Threads: t, Final: final, Preempt: p}
			if mod != nil {
				mod(&sc)
			}
			out = append(out, sc)
		}
	}
	return
}

func withThread(progs [][][]Op, th ...Op) (out [][][]Op) {
	for _, p := range progs {
		out = append(out, append(append([][]Op{}, p...), th))
	}
	return
}

func init() {
	str := []Op{set("k", "7"), setnx("k", "8"), setex("k", "9", 5), psetex("k", "4", 5000), get("k"), getset("k", "6"), strlen("k"), appendOp("k", "1"), appendOp("k", "2"), setrange("k", 1, "3"), getrange("k", 0, 1),
		incr("k"), decr("k"), incrby("k", 10), decrby("k", 5), incrf("k", 2), del("k"), exists("k"), typ("k"), rpush("k", "p")}
	core := []Op{set("k", "7"), setnx("k", "8"), get("k"), getset("k", "6"), appendOp("k", "1"), incr("k"), del("k"), setrange("k", 1, "3"), exists("k")}
	sfinal := []Op{get("k"), exists("k"), adv(6 * time.Second), get("k")}
	concProp("C14", func(t bool) []Scenario {
		p := pick(t, 4, 3)
		s := scen(p, [][]Op{{}, {set("k", "5")}, {set("k", "abc")}, {psetex("k", "12", 5500)}, {incr("k")}, {incrf("k", 1.5)}, {hset("k", "f", "v")}, {rpush("k", "1")}, {psetex("k", "12", 5), adv(6 * ms)}}, pairs2(str), sfinal, nil)
		var other []Op // the same commands on a second key
		for _, o := range str {
			o.K = "j"
			if len(o.L) > 0 {
				o.L = []string{"j"}
				if o.C == "rpush" {
					o.L = []string{"p"}
				}
			}
			other = append(other, o)
		}
		s = append(s, scen(p, [][]Op{{}, {set("k", "5"), psetex("j", "12", 5), adv(6 * ms)}}, cross(str, other), append([]Op{get("j"), exists("j", "k")}, sfinal...), nil)...)
		s = append(s, scen(p, [][]Op{{}, {set("k", "5")}}, triples(pickOps(t, str, core)), sfinal, nil)...)
		s = append(s, scen(p, [][]Op{{}, {set("k", "5")}}, twoByTwo(pickOps(t, core, core[2:7])), sfinal, nil)...)
		s = append(s, scen(p, [][]Op{{}, {set("k", "5")}}, twoByOne(core, core), sfinal, nil)...)
		s = append(s, scen(2, [][]Op{{}, {set("k", "5")}}, [][][]Op{{{incr("k"), incr("k"), incr("k")}, {incr("k"), incr("k"), incr("k")}}, {{appendOp("k", "1"), appendOp("k", "2")}, {appendOp("k", "3"), appendOp("k", "4")}, {get("k"), strlen("k")}},
			{{incr("k"), incr("k")}, {decr("k"), incrby("k", 3)}, {incrf("k", 1), incr("k")}}, {{incr("k"), get("k")}, {set("k", "100"), get("k")}, {incrby("k", 5), get("k")}}, {{rpush("k", "1"), rpush("k", "2", "3")}, {rpush("k", "4"), del("k")}, {rpush("k", "5", "6")}}}, sfinal, nil)...)
		// unusual arguments and values
		odd := []Op{decrby("k", math.MinInt64), incrby("k", math.MaxInt64), incrby("k", math.MinInt64), decrby("k", -3), incrf("k", 0.25), incrf("k", -1e17), appendOp("k", ""), appendOp("k", pattern(700)), appendOp("k", "0"), setrange("k", 0, ""), setrange("k", -1, "x"), setrange("k", 0, pattern(600)), setrange("k", 900, "z"), setrange("k", 3, "1"),
			set("k", ""), set("k", "-1"), set("k", "1.50"), set("k", pattern(5000)), getset("k", ""), getset("k", "007"), setnx("k", ""), setex("k", "", 5), psetex("k", pattern(2000), 5000), getrange("k", -600, 5000), getrange("k", 0, 0), rpush("k"), rpush("k", "p", "", pattern(600)), mset("k", "-3"), msetnx("k", "3"), mget("k", "k"), exists("k", "k")}
		s = append(s, scen(pick(t, 3, 2), [][]Op{{}, {set("k", "-1")}, {set("k", "1.50")}, {set("k", pattern(1000))}, {psetex("k", "-7", 5500)}, {psetex("k", "", 5500)}, {setnx("k", "9223372036854775807")}}, append(pairs2(odd), cross(odd, core)...), append([]Op{strlen("k"), typ("k")}, sfinal...), nil)...)
		return s
	}, nil, "31 unusual commands (extreme arguments, empty and long values) in pairs and against core commands on 7 initial values; 19 string commands and RPush in pairs on 8 initial values, core commands in triples, 2x2 and 2x1 programs, 3-command counters")

	hash := []Op{hset("k", "f", "7"), hset("k", "g", "x"), hsetnx("k", "f", "8"), hmset("k", "f", "1", "g", "2"), hdel("k", "f"), hdel("k", "f", "g"), hget("k", "f"), hmget("k", "f", "g"), hexists("k", "f"), hlen("k"), hstrlen("k", "f"), hkeys("k"), hvals("k"), hgetall("k"), hincrby("k", "f", 3), hincrf("k", "f", 2), del("k"), set("k", "s")}
	hcore := []Op{hset("k", "f", "7"), hsetnx("k", "g", "8"), hdel("k", "f"), hlen("k"), hincrby("k", "f", 3), hgetall("k"), hmset("k", "f", "1", "g", "2"), del("k")}
	hfinal := []Op{hgetall("k"), hlen("k"), hkeys("k"), exists("k"), hset("k", "z", "1"), hlen("k")}
	concProp("C15", func(t bool) []Scenario {
		p := pick(t, 4, 3)
		s := scen(p, [][]Op{{}, {hset("k", "f", "5")}, {hmset("k", "f", "5", "g", "6")}, {hset("k", "g", "a")}, {set("k", "str")}, {psetex("k", "12", 5), adv(6 * ms)}}, pairs2(hash), hfinal, nil)
		s = append(s, scen(p, [][]Op{{}, {hset("k", "f", "5")}}, triples(hcore), hfinal, nil)...)
		s = append(s, scen(p, [][]Op{{}, {hset("k", "f", "5")}}, twoByTwo(pickOps(t, hcore, hcore[:5])), hfinal, nil)...)
		s = append(s, scen(p, [][]Op{{}, {hset("k", "f", "5")}}, twoByOne(hcore, hcore), hfinal, nil)...)
		odd := []Op{hincrby("k", "f", math.MaxInt64), hincrby("k", "f", math.MinInt64), hincrf("k", "f", 0.25), hincrf("k", "g", -1.5), hset("k", "f", "-1"), hset("k", "f", "1.50"), hset("k", "", "e"), hset("k", "f", pattern(600)), hsetnx("k", "f", pattern(600)), hsetnx("k", "", "n"), hmset("k"), hmset("k", "", "1", "f", pattern(5000), "i", "3"), hdel("k"), hdel("k", "", "x", "f"), hdel("k", "f", "f"),
			hget("k", ""), hmget("k", "", "f", "", "i"), hmget("k"), hexists("k", ""), hstrlen("k", "f"), hlen("k"), hgetall("k"), del("k"), setnx("k", "s"), rpush("k", "l")}
		s = append(s, scen(pick(t, 3, 2), [][]Op{{}, {hset("k", "f", "-1")}, {hsetnx("k", "f", "1.50")}, {hset("k", "", "q")}, {hmset("k", "f", "9", "", "z", "g", "2.5")}, {hmset("k", append(manyFields(40), "f", "0")...)}}, append(pairs2(odd), cross(odd, hcore)...), hfinal, nil)...)
		return s
	}, nil, "25 unusual commands (extreme arguments, empty fields, long values) in pairs and against core commands on 6 initial values; 18 hash commands in pairs on 5 initial values, core commands in triples, 2x2 and 2x1 programs")

	multi := []Op{mset("a", "1", "b", "2"), mset("b", "3", "a", "4", "c", "5"), msetnx("a", "6", "b", "7"), mget("a", "b"), mget("b", "a", "c"), exists("a", "b"), exists("b", "a", "c"), flush(),
		hmset("h", "f", "1", "g", "2"), hmset("h", "g", "3", "f", "4"), hmget("h", "f", "g"), hgetall("h"), hkeys("h"), hvals("h")}
	single := []Op{set("a", "s"), set("b", "t"), get("a"), get("b"), del("a"), del("b"), setnx("a", "n"), incr("b"), appendOp("a", "9"), hset("h", "f", "9"), hset("h", "g", "8"), hdel("h", "f"), hget("h", "f"), hlen("h"), del("h"), rpush("b", "p", "q")}
	mfinal := []Op{get("a"), get("b"), get("c"), hgetall("h"), hlen("h"), exists("a", "b", "c", "h")}
	concProp("C16", func(t bool) []Scenario {
		p := pick(t, 4, 3)
		setups := [][]Op{{}, {set("a", "10"), set("b", "20")}, {set("b", "21"), hmset("h", "f", "x", "g", "y")}}
		s := scen(p, setups, pairs2(multi), mfinal, nil)
		s = append(s, scen(p, setups, cross(multi, single), mfinal, nil)...)
		// a reader or writer in two steps against one multi-key command
		s = append(s, scen(p, setups, twoByOne(pickOps(t, single, []Op{get("a"), get("b"), set("a", "s"), set("b", "t"), hget("h", "f"), hset("h", "g", "8"), del("a")}), multi), mfinal, nil)...)
		s = append(s, scen(2, setups[:2], triples(pickOps(t, multi, []Op{multi[0], multi[2], multi[3], multi[5], multi[7], multi[8], multi[11]})), mfinal, nil)...)
		// commands on many keys or fields
		for i, n := range []int{6, 130} {
			fv, names := manyFields(n), fieldNames(n)
			var other []string
			for j := range names {
				other = append(other, names[n-1-j], "o")
			}
			big := []Op{mset(fv...), mset(other...), msetnx(fv...), mget(names...), exists(names...), flush(), hmset("h", fv...), hmset("h", other...), hmget("h", names...), hgetall("h"), hkeys("h"), hvals("h"), hdel("h", names...), hlen("h"), rpush("l", names...), rpush("l", "p", "q")}
			bfinal := []Op{mget(names...), hgetall("h"), hlen("h"), exists(append([]string{"h", "l"}, names...)...), rpush("l", "end")}
			s = append(s, scen(pick(t, 3, 2)-i, [][]Op{{}, {mset(fv...), hmset("h", other...)}}, pairs2(big), bfinal, nil)...)
		}
		return s
	}, nil, "14 multi-key commands in pairs, 16 on 6 and on 130 keys or fields in pairs, against 16 single-key commands, against two-step readers/writers, and in triples; no clock movement inside a multi-key read")

	rd := []Op{get("k"), strlen("k"), getrange("k", 0, -1), exists("k"), typ("k"), mget("k"), hget("k", "f"), hlen("k"), hgetall("k"), hexists("k", "f"), hkeys("k"), hvals("k"), hmget("k", "f"), hstrlen("k", "f"), hdel("k", "f"), del("k"), setrange("k", -1, "x")}
	wr := []Op{set("k", "7"), setex("k", "8", 5), psetex("k", "9", 5000), setnx("k", "4"), getset("k", "6"), mset("k", "3"), msetnx("k", "2"), incr("k"), decrby("k", 4), incrf("k", 2), appendOp("k", "1"), setrange("k", 0, "5"), hset("k", "f", "v"), hsetnx("k", "f", "w"), hmset("k", "f", "x"), hincrby("k", "f", 2), hincrf("k", "f", 2), rpush("k", "p", "q")}
	expired := [][]Op{{psetex("k", "12", 5), adv(6 * ms)}}
	expiring := [][]Op{{psetex("k", "12", 5)}}
	kfinal := []Op{get("k"), hget("k", "f"), exists("k"), adv(3 * time.Second), get("k"), exists("k"), adv(10 * time.Second), exists("k")}
	concProp("C17", func(t bool) []Scenario {
		p := pick(t, 4, 3)
		s := scen(p, expired, cross(rd, wr), kfinal, nil)
		s = append(s, scen(p, expired, pairs2(wr), kfinal, nil)...)
		s = append(s, scen(p, expired, pairs2(rd), kfinal, nil)...)
		clk := func(sc *Scenario) { sc.Clock = true }
		s = append(s, scen(2, expiring, withThread(cross(rd, wr[:12]), adv(6*ms)), kfinal, clk)...)
		s = append(s, scen(2, expiring, withThread(pairs2(rd), adv(6*ms)), kfinal, clk)...)
		s = append(s, scen(2, expired, twoByOne([]Op{get("k"), set("k", "7"), exists("k"), typ("k"), setnx("k", "4")}, wr), kfinal, nil)...)
		// the sweep
		cr := func(sc *Scenario) { sc.Cron = true; sc.Clock = true }
		exp2 := [][]Op{{psetex("k", "12", 1500)}, {psetex("k", "12", 1500), psetex("j", "1", 1400)}}
		var w1 [][][]Op
		for _, w := range append(append([]Op{}, wr...), rd...) {
			w1 = append(w1, [][]Op{{w}, {adv(2001 * ms)}})
		}
		for _, w := range wr {
			w1 = append(w1, [][]Op{{w, get("k")}, {adv(2001 * ms)}})
			w1 = append(w1, [][]Op{{get("k"), w}, {adv(2001 * ms)}}, [][]Op{{w}, {exists("k")}, {adv(2001 * ms)}})
		}
		s = append(s, scen(p, exp2, w1, kfinal, cr)...)
		return s
	}, nil, "17 reading commands x 18 writing commands on an expired key, on a key that expires during the race, and against the background sweep")

	every := func() []Op {
		l := []Op{get("k"), strlen("k"), getrange("k", 0, -1), exists("k", "j"), typ("k"), mget("k", "j"), del("k"), setnx("k", "n"), msetnx("k", "m", "j", "m"), incr("k"), decr("k"), incrby("k", 5), decrby("k", 2), incrf("k", 0.5), appendOp("k", "9"), setrange("k", 1, "9"), getset("k", "g"), set("k", "s"), setex("k", "e", 5), psetex("k", "p", 5000), mset("k", "1", "j", "2"), flush(),
			hget("k", "f"), hset("k", "f", "v"), hsetnx("k", "f", "w"), hdel("k", "f"), hmset("k", "f", "1", "g", "2"), hmget("k", "f"), hexists("k", "f"), hlen("k"), hstrlen("k", "f"), hkeys("k"), hvals("k"), hgetall("k"), hincrby("k", "f", 3), hincrf("k", "f", 0.5), rpush("k", "p", "q")}
		return l
	}
	concProp("C18", func(t bool) []Scenario {
		nl := func(sc *Scenario) { sc.NoLin = true }
		p := pick(t, 3, 2)
		setups := [][]Op{{}, {set("k", "5")}, {set("k", "abc"), set("j", "1")}, {hmset("k", "f", "5", "g", "x")}, {hset("k", "f", "5")}, {rpush("k", "5")}, {psetex("k", "5", 5), adv(6 * ms)}, {psetex("k", "5", 5000), psetex("j", "5", 5), adv(6 * ms)}}
		s := scen(p, setups, pairs2(every()), []Op{get("k"), hgetall("k"), flush()}, nl)
		var other []Op
		for _, o := range every() {
			if o.K == "k" {
				o.K = "i"
				other = append(other, o)
			}
		}
		s = append(s, scen(p, [][]Op{{}, {psetex("k", "5", 5), psetex("i", "5", 5), adv(6 * ms)}, {hset("k", "f", "5"), hset("i", "f", "7")}}, cross(every(), other), []Op{get("k"), hgetall("i"), flush()}, nl)...)
		crn := func(sc *Scenario) { sc.NoLin = true; sc.Cron = true; sc.Clock = true }
		var w1 [][][]Op
		for _, o := range every() {
			w1 = append(w1, [][]Op{{o}, {adv(2001 * ms)}}, [][]Op{{o, o}, {adv(4001 * ms)}}, [][]Op{{o}, {flush()}, {adv(2001 * ms)}}, [][]Op{{o}, {get("k")}, {adv(2001 * ms)}})
		}
		s = append(s, scen(p, [][]Op{{psetex("k", "5", 1500)}, {psetex("k", "5", 1500), psetex("j", "6", 1400), hset("h", "f", "1")}, {hmset("k", "f", "5")}}, w1, []Op{get("k")}, crn)...)
		s = append(s, scen(2, setups[:4], triples(pickOps(t, every(), []Op{get("k"), set("k", "1"), del("k"), hset("k", "f", "v"), hdel("k", "f"), incr("k"), mget("k", "j"), flush(), setnx("k", "n"), hgetall("k")})), nil, nl)...)
		return s
	}, nil, "every pair of 37 commands on 8 initial values, every command against the background sweep (with a third thread), triples of core commands")

	concProp("C08", func(t bool) []Scenario {
		p := pick(t, 3, 2)
		cr := func(sc *Scenario) { sc.Cron = true; sc.Clock = true }
		setups := [][]Op{{psetex("k", "12", 1500), set("j", "1"), hset("h", "f", "v")}, {psetex("k", "12", 3000), psetex("j", "2", 1900)}, {set("k", "5"), set("j", "2030-01-01")}}
		var w [][][]Op
		for _, o := range every() {
			if o.C == "mget" || o.C == "exists" || o.C == "msetnx" { // they read the clock once per key
				continue
			}
			w = append(w, [][]Op{{o}, {adv(2001 * ms)}}, [][]Op{{o}, {adv(1001 * ms), adv(1001 * ms)}}, [][]Op{{o}, {adv(2001 * ms), adv(2001 * ms)}})
		}
		fin := []Op{get("k"), hget("k", "f"), get("j"), hget("h", "f"), exists("k", "j", "h"), adv(2100 * ms), get("k"), get("j"), hget("h", "f"), adv(2100 * ms), get("k"), get("j"), hget("h", "f")}
		s := scen(p, setups, w, fin, cr)
		cmds := []Op{set("k", "7"), psetex("k", "9", 2500), get("k"), del("k"), incr("k"), flush(), setnx("k", "n"), hset("k", "f", "1"), getset("k", "g")}
		s = append(s, scen(2, setups[:2], withThread(twoSeq(cmds), adv(2001*ms)), fin, cr)...)
		s = append(s, scen(2, setups[:2], withThread(pairs2(cmds), adv(2001*ms)), fin, cr)...)
		return s
	}, func(t bool) []Universe {
		ops := []Op{set("a", "1"), psetex("a", "2", 10), psetex("b", "3", 1900), setex("b", "4", 3), setex("a", "5", 2), hset("c", "f", "v"), adv(700 * ms), adv(2001 * ms), adv(11 * ms), del("a"), flush(), incr("a"), getset("b", "q"), get("a"), setnx("a", "n"), appendOp("b", "1"), hdel("c", "f"), mset("a", "6", "b", "7"), mset("b", "2030-01-01T00:00:00Z", "c", "0")}
		return []Universe{{Name: "cron", Setup: []Op{cron()}, Ops: ops, Depth: pick(t, 5, 4), Plain: 2, Keys: []string{"a", "b", "c"}, Probe: true},
			{Name: "cron-loaded", Setup: []Op{cron(), psetex("a", "x", 1500), setex("b", "5", 2), hset("c", "f", "1"), set("d", "0")}, Ops: ops, Depth: pick(t, 4, 3), Plain: 2, Keys: []string{"a", "b", "c", "d"}, Probe: true},
			{Name: "cron-reclaims", Setup: []Op{cron(), set("d", "stays")}, Ops: []Op{psetex("a", "gone-a-1", 10), psetex("b", "gone-b-2", 1900), setex("b", "778899001", 3), setex("c", "7788.25", 2), psetex("d", "gone-d-3", 500), setex("c", "gone-c-4", 9000), set("a", "kept-a"), setnx("b", "kept-b"), appendOp("a", "+more"), incrby("b", 5000000), adv(11 * ms), adv(700 * ms), adv(2001 * ms), del("a"), flush(), cron(), mset("a", "kept-e", "e", "kept-f"), get("b")},
				Depth: pick(t, 4, 3), Plain: 2, Keys: []string{"a", "b", "c", "d", "e"}, Sweeps: 12, Probe: true},
			{Name: "cron-reclaims-many", Setup: append([]Op{cron()}, manyExpiring(500)...), Ops: []Op{adv(2001 * ms), adv(700 * ms), set("f3", "z"), psetex("f9", "gone-again", 4000)}, Depth: 2, Plain: 2, Keys: []string{"f3", "f9", "f100", "f199"}, Sweeps: 12},
			{Name: "cron-twice", Setup: []Op{cron(), cron(), psetex("a", "x", 1500), set("d", "0")}, Ops: ops, Depth: 2, Plain: 2, Keys: []string{"a", "b", "c", "d"}, Probe: true},
			{Name: "cron-many", Setup: []Op{cron(), mset(manyFields(200)...), psetex("f3", "x", 1500), psetex("f9", "y", 2500)}, Ops: []Op{adv(2001 * ms), adv(1001 * ms), set("f3", "z"), del("f9")}, Depth: 3, Plain: 2, Keys: []string{"f3", "f9", "f100", "f199"}, Probe: true}}
	}, "every command against one and two sweeps, two-command programs and pairs against a sweep")
}

func pickOps(t bool, a, b []Op) []Op {
	if t {
		return a
	}
	return b
}

func twoSeq(ops []Op) (out [][][]Op) {
	for _, a := range ops {
		for _, b := range ops {
			out = append(out, [][]Op{{a, b}})
		}
	}
	return
}

func manyExpiring(n int) (l []Op) {
	for i := 0; i < n; i++ {
		l = append(l, psetex(fmt.Sprint("f", i), fmt.Sprintf("gone-%03d-", i), int64(1000+7*i)))
	}
	return
}
