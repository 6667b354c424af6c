package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/liujiangwei/xxcache/redis"
	"github.com/liujiangwei/xxcache/zzverif/vs"
)

// ---- C23: the pool ----

// poolProg is what one caller does with the pool.
// letters: G Get-hold-Put, C ExecCommand, X Exec, c the same with a cancelled context, F Exec whose handler
// fails, K Get with a context cancelled by another thread, Z Close, 2 Get twice then Put both
type poolScen struct {
	cap      int
	threads  []string
	dial     string // outcome of the n-th dial: o ok, f refused, h hangs until everything else is quiet; beyond: o
	handler  string // outcome of the open handler on the n-th connection: o ok, f fails, r fails after an error reply, d the connection drops
	handlers int
	preempt  int
	env      int // deviations decided by the explorer instead of the strings (0: use strings)
	fault    bool
	closeErr bool // closing a connection reports an error
}

func (p poolScen) String() string {
	x := ""
	if p.closeErr {
		x = ", closing reports an error"
	}
	return fmt.Sprintf("capacity %d, callers %s, dials %q, open handlers %q, explored faults %d%s", p.cap, strings.Join(p.threads, " || "), p.dial, p.handler, p.env, x)
}

type cancelAt struct {
	ctx    context.Context
	cancel func()
}

func poolRun(p poolScen, e *vs.Explorer) (*vs.Sched, string) {
	n := &fakeNet{closeErr: p.closeErr}
	bad := ""
	fail := func(f string, a ...interface{}) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	healthy := false
	hanging := 0
	hung := map[int]bool{}
	n.onDial = func(k int, addr string) error {
		out := byte('o')
		if k < len(p.dial) {
			out = p.dial[k]
		}
		if p.env > 0 && !healthy && vs.Deviate(2) == 1 {
			out = 'f'
		}
		if healthy {
			out = 'o'
		}
		switch out {
		case 'f':
			return errRefused
		case 'h':
			hanging++
			id := vs.Cur()
			hung[id] = true
			vs.Block("hanging dial", func() bool { return healthy })
			hanging--
			hung[id] = false
			return errRefused
		}
		return nil
	}
	n.onReq = func(s *srvConn, args []string) {
		if isCmd(args, "hello") {
			out := byte('o')
			if s.id < len(p.handler) {
				out = p.handler[s.id]
			}
			if p.env > 0 && !healthy && vs.Deviate(2) == 1 {
				out = 'd'
			}
			if healthy {
				out = 'o'
			}
			switch out {
			case 'd':
				s.drop(io.EOF)
				return
			case 'r', 'f':
				s.send("-ERR no\r\n")
				return
			}
			s.send("+OK\r\n")
			return
		}
		if p.fault && !healthy {
			switch vs.Deviate(4) {
			case 1:
				s.drop(io.EOF)
				return
			case 2:
				s.send("$5\r\nab")
				s.drop(errReset)
				return
			case 3:
				s.send("?x\r\n")
				return
			}
		}
		s.send(bulk(args[1]).enc())
	}
	inUse := map[*redis.Conn]int{}
	take := func(who string, c *redis.Conn) {
		if c == nil {
			fail("%s got no connection and no error", who)
			return
		}
		if inUse[c]++; inUse[c] > 1 {
			fail("%s got a connection that another caller holds", who)
		}
	}
	give := func(c *redis.Conn) { inUse[c]-- }
	checkOpen := func() {
		if n.maxOpen > p.cap {
			fail("%d connections are open, the capacity is %d", n.maxOpen, p.cap)
		}
	}
	s, msg := netRun(e, false, 60000, n, func() {
		pool := &redis.Pool{}
		pool.Init(p.cap, "m:1")
		for i := 0; i < p.handlers; i++ {
			pool.AddConnOpenHandler(func(conn *redis.Conn) error {
				cmd := redis.StringCommand{BaseCommand: redis.NewBaseCommand("hello", "x")}
				conn.ExecCommand(context.Background(), &cmd)
				return cmd.Err
			})
		}
		bg := context.Background()
		expectErr := map[string]bool{}
		var ths []*vs.Thread
		vs.SetBranch(true)
		var cancels []func()
		for ti, prog := range p.threads {
			ti, prog := ti, prog
			var kctx context.Context
			if strings.Contains(prog, "K") {
				var cf func()
				kctx, cf = context.WithCancel(bg)
				cancels = append(cancels, cf)
			}
			ths = append(ths, vs.GoNamed(fmt.Sprintf("T%d", ti+1), func() {
				for j, op := range prog {
					who := fmt.Sprintf("caller %d (%c)", ti+1, op)
					ctx := bg
					switch op {
					case 'G', 'K', 'c':
						if op == 'K' {
							ctx = kctx
						}
						if op == 'c' {
							x, cf := context.WithCancel(bg)
							cf()
							ctx = x
						}
						conn, err := pool.Get(ctx)
						if err != nil {
							expectErr[who] = true
							continue
						}
						take(who, conn)
						vs.Point("hold")
						give(conn)
						pool.Put(conn)
					case '2':
						a, err := pool.Get(bg)
						if err != nil {
							continue
						}
						take(who, a)
						b, err := pool.Get(bg)
						if err == nil {
							take(who, b)
							give(b)
							pool.Put(b)
						}
						give(a)
						pool.Put(a)
					case 'C':
						want := fmt.Sprintf("v%d-%d", ti, j)
						cmd := redis.StringCommand{BaseCommand: redis.NewBaseCommand("get", want)}
						pool.ExecCommand(ctx, &cmd)
						if v, err := cmd.Result(); err == nil && v != want {
							fail("%s asked for %q and got %q", who, want, v)
						}
					case 'X', 'F':
						want := fmt.Sprintf("x%d-%d", ti, j)
						herr := errors.New("handler failed")
						ran := false
						err := pool.Exec(ctx, func(conn *redis.Conn) error {
							ran = true
							take(who, conn)
							defer give(conn)
							if op == 'F' {
								vs.Point("hold")
								return herr
							}
							cmd := redis.StringCommand{BaseCommand: redis.NewBaseCommand("get", want)}
							conn.ExecCommand(ctx, &cmd)
							if v, err := cmd.Result(); err == nil && v != want {
								fail("%s asked for %q and got %q", who, want, v)
							}
							return cmd.Err
						})
						if op == 'F' && ran && err != herr {
							fail("Exec does not return the handler's error but %v", err)
						}
						if !ran && err == nil {
							fail("Exec neither ran the handler nor returned an error")
						}
					case 'Z':
						_ = pool.Close()
					}
				}
			}))
		}
		if len(cancels) > 0 {
			ths = append(ths, vs.GoNamed("cancel", func() {
				for _, cf := range cancels {
					vs.Point("cancel")
					cf()
				}
			}))
		}
		// every call completes, except those waiting for a dial that hangs
		vs.WaitQuiescent()
		vs.SetBranch(false)
		notDone := 0
		for _, t := range ths {
			if !t.Done() {
				notDone++
			}
		}
		if hanging == 0 && notDone > 0 {
			fail("%d callers never return although nobody holds a connection", notDone)
			return
		}
		if hanging > 0 {
			for ti, t := range ths[:len(p.threads)] {
				// a caller whose only business is a context that is cancelled does not wait for another's dial
				if !t.Done() && strings.Trim(p.threads[ti], "Kc") == "" && !hung[t.ID] {
					fail("caller %d waits although its context is cancelled", ti+1)
				}
			}
		}
		checkOpen()
		healthy = true
		vs.WaitQuiescent()
		for i, t := range ths {
			if !t.Done() {
				fail("caller %d never returns", i+1)
				return
			}
		}
		checkOpen()
		// nothing is lost: the whole capacity can be borrowed again, and no more than that
		var held []*redis.Conn
		full := vs.GoNamed("reclaim", func() {
			for i := 0; i < p.cap; i++ {
				conn, err := pool.Get(bg)
				if err != nil {
					fail("after the network has healed, borrowing connection %d of %d fails: %v", i+1, p.cap, err)
					return
				}
				take("reclaim", conn)
				held = append(held, conn)
			}
		})
		vs.WaitQuiescent()
		if !full.Done() {
			fail("only %d of %d connections can be borrowed after all were returned", len(held), p.cap)
			return
		}
		if bad != "" {
			return
		}
		checkOpen()
		ctx, cf := context.WithCancel(bg)
		var xe error
		extra := vs.GoNamed("extra", func() {
			var conn *redis.Conn
			if conn, xe = pool.Get(ctx); xe == nil {
				take("extra", conn)
				fail("more connections than the capacity %d are handed out", p.cap)
			}
		})
		vs.WaitQuiescent()
		if extra.Done() && xe != nil {
			fail("a waiter gets the error %v although its context is not cancelled", xe)
		}
		cf()
		vs.WaitQuiescent()
		if !extra.Done() {
			fail("a cancelled context does not unblock the waiter")
			return
		}
		// a returned connection unblocks a waiter
		var wc *redis.Conn
		var we error
		w := vs.GoNamed("waiter", func() { wc, we = pool.Get(bg) })
		vs.WaitQuiescent()
		give(held[0])
		pool.Put(held[0])
		vs.WaitQuiescent()
		if !w.Done() || we != nil || wc == nil {
			fail("returning a connection does not unblock the waiter (%v)", we)
			return
		}
		take("waiter", wc)
		held[0] = wc
		for _, h := range held {
			give(h)
			pool.Put(h)
		}
		checkOpen()
		closer := vs.GoNamed("closer", func() { _ = pool.Close() })
		vs.WaitQuiescent()
		if !closer.Done() {
			fail("Close does not return")
			return
		}
		if o := n.open(); o > 0 {
			fail("Close leaves %d idle connections open", o)
		}
		again := vs.GoNamed("closer2", func() { _ = pool.Close() })
		vs.WaitQuiescent()
		if !again.Done() {
			fail("a second Close does not return")
		}
	})
	if msg == "" {
		msg = bad
	}
	return s, msg
}

func c23scens(t bool) (l []poolScen) {
	p := pick(t, 3, 2)
	add := func(x poolScen) {
		if x.preempt == 0 {
			x.preempt = p
		}
		l = append(l, x)
	}
	ops := []string{"G", "C", "X", "F", "c", "K", "Z"}
	dials := []string{"", "f", "of", "ff", "fo", "off"}
	// no faults, pairs and triples
	for i, a := range ops {
		for j := i; j < len(ops); j++ {
			b := ops[j]
			for _, cp := range []int{1, 2} {
				for _, d := range dials {
					add(poolScen{cap: cp, threads: []string{a, b}, dial: d})
				}
				for _, h := range []string{"", "f", "d", "of", "ff"} {
					add(poolScen{cap: cp, threads: []string{a, b}, handlers: 1, handler: h})
				}
			}
		}
	}
	for i, a := range ops {
		for j := i; j < len(ops); j++ {
			for k := j; k < len(ops); k++ {
				for _, cp := range []int{1, 2} {
					for _, d := range []string{"", "f", "of"} {
						add(poolScen{cap: cp, threads: []string{a, ops[j], ops[k]}, dial: d, preempt: pick(t, 2, 1)})
					}
				}
			}
		}
	}
	// sequences per caller, faults decided by the explorer
	for _, cp := range []int{1, 2, 3} {
		for _, th := range [][]string{{"CC"}, {"CCC"}, {"GG", "C"}, {"CX", "XC"}, {"GZG", "G"}, {"ZG", "GZ"}, {"CZ", "CZ"}, {"cG", "K"}, {"KG", "GC"}, {"FFF"}, {"FG", "C"}, {"CZC"}, {"ZZ", "CC"}, {"KK", "GG"}} {
			add(poolScen{cap: cp, threads: th, env: pick(t, 3, 2), handlers: 1, preempt: pick(t, 2, 1)})
			add(poolScen{cap: cp, threads: th, env: pick(t, 3, 2), handlers: 0, preempt: pick(t, 3, 2), fault: true})
		}
	}
	for _, th := range [][]string{{"G", "G", "G"}, {"C", "C", "Z"}, {"GG", "GG", "K"}, {"C", "K", "Z"}} {
		for _, cp := range []int{1, 2} {
			add(poolScen{cap: cp, threads: th, env: 2, handlers: 1, preempt: 1})
		}
	}
	for _, th := range [][]string{{"2"}, {"2", "G"}, {"2", "C"}, {"2", "K"}, {"2", "Z"}, {"2", "c"}} {
		for _, d := range []string{"", "f", "of", "oof"} {
			add(poolScen{cap: 2, threads: th, dial: d})
			add(poolScen{cap: 3, threads: append(append([]string{}, th...), "2"), dial: d, preempt: 1})
		}
	}
	for _, cp := range []int{1, 2} {
		for _, th := range [][]string{{"C", "Z"}, {"CZ"}, {"CZC"}, {"GZ", "C"}, {"X", "Z"}, {"ZZ", "C"}, {"FZ"}} {
			add(poolScen{cap: cp, threads: th, closeErr: true, env: 1, fault: true, preempt: pick(t, 2, 1)})
			add(poolScen{cap: cp, threads: th, closeErr: true, env: 1, handlers: 1, preempt: pick(t, 2, 1)})
		}
	}
	// large pools: the whole capacity is borrowed at once and returned
	for _, cp := range []int{3, 7, 8, 9, 19, 20, 21, 32, 64, 65, 100, 300, 1025} {
		for _, th := range [][]string{{"C"}, {"G", "C"}, {"2", "2", "2"}} {
			add(poolScen{cap: cp, threads: th, preempt: 1, dial: "f"})
			add(poolScen{cap: cp, threads: th, preempt: 1, handlers: 1, handler: "f"})
		}
	}
	// a dial that hangs: everybody whose context is cancelled still returns
	for _, th := range [][]string{{"G", "K"}, {"C", "K", "c"}, {"G", "K", "K"}, {"X", "c"}, {"G", "Z"}, {"G", "G", "K"}} {
		for _, cp := range []int{1, 2} {
			for _, d := range []string{"h", "oh", "hh", "fh"} {
				add(poolScen{cap: cp, threads: th, dial: d, preempt: pick(t, 2, 1)})
			}
		}
	}
	return
}

// ---- C24: replies ----

type callScen struct {
	size    int
	threads [][]string // keys each caller asks for
	fault   string     // set of faults
	env     int
	preempt int
	pool    bool // the calls go to a pool, each with a context of its own that somebody cancels
}

func (s callScen) String() string {
	var l []string
	for _, t := range s.threads {
		l = append(l, strings.Join(t, ";"))
	}
	if s.pool {
		l = append(l, "cancel")
	}
	return fmt.Sprintf("pool %d, callers %s, up to %d faults of %s", s.size, strings.Join(l, " || "), s.env, s.fault)
}

var errorReplies = []string{"LOADING Redis is loading the dataset in memory", "BUSY Redis is busy running a script", "MOVED 3999 127.0.0.1:6381", "ASK 3999 127.0.0.1:6381", "NOAUTH Authentication required.", "TRYAGAIN x", "READONLY x", "MASTERDOWN x", "CLUSTERDOWN x", "OOM x", "EXECABORT x", "", "x"}

// replies by the first letter of the key
func callReply(key string) rv {
	switch key[0] {
	case 'i':
		return bulk("int:" + key)
	case 'e':
		return rerr("ERR " + key)
	case 'E': // errors the server words in other ways
		return rerr(errorReplies[int(key[1]-'a')%len(errorReplies)])
	case 'n':
		return nilv()
	case 'y': // a value that looks like further replies
		return bulk("\r\n+" + key + "\r\n$3\r\nbad\r\n:7\r\n")
	case 'b':
		return bulk(key + letters(4100))
	}
	return bulk("v:" + key)
}

func callRun(sc callScen, e *vs.Explorer) (*vs.Sched, string) {
	n := &fakeNet{}
	bad := ""
	fail := func(f string, a ...interface{}) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	healthy := false
	faults := 0
	pendingDelay := 0
	n.onDial = func(k int, addr string) error {
		if !healthy && strings.Contains(sc.fault, "dial") && vs.Deviate(2) == 1 {
			faults++
			return errRefused
		}
		return nil
	}
	reply := func(args []string) string {
		if isCmd(args, "mget") {
			x := arr()
			for _, k := range args[1:] {
				r := callReply(k)
				if r.k == '-' {
					r = nilv()
				}
				x.arr = append(x.arr, r)
			}
			return x.enc()
		}
		if isCmd(args, "strlen") {
			return vint(len(args[1]) + 1000).enc()
		}
		return callReply(args[1]).enc()
	}
	n.onReq = func(s *srvConn, args []string) {
		full := reply(args)
		if healthy {
			if s.end == nil {
				s.send(full)
			}
			return
		}
		type alt func()
		alts := []alt{func() { s.send(full) }}
		if strings.Contains(sc.fault, "cut") {
			at := []int{0, 1, 2, 3, 4, 5, 6, len(full) - 3, len(full) - 2, len(full) - 1}
			if len(full) < 24 {
				at = at[:0]
				for i := 0; i < len(full); i++ {
					at = append(at, i)
				}
			}
			for _, k := range at {
				k := k
				alts = append(alts, func() { s.send(full[:k]); s.drop(io.EOF) })
			}
			alts = append(alts, func() { s.send(full[:len(full)/2]); s.drop(errReset) })
		}
		if strings.Contains(sc.fault, "close") {
			// the whole reply arrives, then the connection is gone
			alts = append(alts, func() { s.send(full); s.drop(io.EOF) }, func() { s.send(full); s.drop(errReset) },
				// the server has shut down its side only: what is written still goes through
				func() { s.send(full); s.end = io.EOF }, func() { s.send(full[:len(full)/2]); s.end = io.EOF })
		}
		if strings.Contains(sc.fault, "garble") {
			alts = append(alts, func() { s.send("?" + full) },
				func() { s.send("?" + full[1:]) },
				func() { s.send("?\r\n" + bulk("stale").enc()) },
				func() { s.send("$x\r\n" + bulk("stale").enc()) },
				func() { s.send("$-5\r\n" + bulk("stale").enc()) },
				func() { s.send(":12z\r\n" + vint(77).enc() + bulk("stale").enc()) },
				func() { s.send("*2\r\n$1\r\na\r\n?" + bulk("stale").enc() + bulk("stale2").enc()) },
				func() { s.send("*-7\r\n" + bulk("stale").enc()) },
				func() { s.send("*1x\r\n" + bulk("stale").enc()) },
				func() { s.send("$3\r\nabcdef\r\n" + bulk("stale").enc()) },
				func() { s.send("$3\r\nabc+stale\r\n" + bulk("stale").enc()) },
				func() { s.send("$100\r\nabc\r\n"); s.drop(io.EOF) },
				func() { s.send("\r\n" + bulk("stale").enc()) })
		}
		if strings.Contains(sc.fault, "delay") {
			alts = append(alts, func() {
				pendingDelay++
				vs.GoNamed("late reply", func() {
					vs.WaitQuiescent()
					pendingDelay--
					s.send(full)
				})
			}, func() {
				pendingDelay++
				vs.GoNamed("late reply", func() {
					s.send(full[:1])
					vs.WaitQuiescent()
					pendingDelay--
					s.send(full[1:])
				})
			})
		}
		k := vs.Deviate(len(alts))
		if k > 0 {
			faults++
		}
		alts[k]()
	}
	s, msg := netRun(e, false, 60000, n, func() {
		r := redis.NewClient(redis.Option{Addr: "m:1", PoolSize: sc.size})
		pool := &redis.Pool{}
		pool.Init(sc.size, "m:1")
		bg := context.Background()
		check := func(who, key string, mustWork bool, ctx context.Context) bool {
			var got string
			var err error
			want := ""
			wantErr := false
			kind := key[0]
			if sc.pool {
				kind = 'p'
			}
			switch kind {
			case 'p':
				cmd := redis.StringCommand{BaseCommand: redis.NewBaseCommand("get", key)}
				pool.ExecCommand(ctx, &cmd)
				got, err = cmd.Result()
				v := callReply(key)
				want = v.s
				wantErr = v.k != '$'
			case 'm':
				var l []interface{}
				keys := strings.Split(key[2:], ",")
				l, err = r.MGet(keys...)
				got, want = "", ""
				for _, x := range l {
					got += fmt.Sprintf("%v|", x)
				}
				for _, k := range keys {
					if v := callReply(k); v.k == '$' {
						want += v.s + "|"
					} else {
						want += "Nil|"
					}
				}
				if err == nil && len(l) != len(keys) {
					fail("%s: MGet of %d keys returns %d elements", who, len(keys), len(l))
				}
			case 'l':
				var i int
				i, err = r.StrLen(key)
				got, want = fmt.Sprint(i), fmt.Sprint(len(key)+1000)
			default:
				got, err = r.Get(key)
				v := callReply(key)
				want = v.s
				wantErr = v.k != '$'
			}
			if err == nil && (wantErr || got != want) {
				fail("%s asked for %q and got %s, the reply to another command", who, key, short(got))
			}
			ok := err == nil || wantErr
			if mustWork && !ok {
				return false
			}
			return true
		}
		vs.SetBranch(true)
		var ths []*vs.Thread
		var cancels []func()
		for i, keys := range sc.threads {
			i, keys := i, keys
			ctx := bg
			if sc.pool {
				var cf func()
				ctx, cf = context.WithCancel(bg)
				cancels = append(cancels, cf)
			}
			ths = append(ths, vs.GoNamed(fmt.Sprintf("T%d", i+1), func() {
				for _, k := range keys {
					check(fmt.Sprintf("caller %d", i+1), k, false, ctx)
				}
			}))
		}
		if sc.pool {
			ths = append(ths, vs.GoNamed("cancel", func() {
				for _, cf := range cancels {
					vs.Point("cancel")
					cf()
				}
			}))
		}
		vs.Join(ths...)
		vs.SetBranch(false)
		healthy = true
		vs.WaitQuiescent()
		if pendingDelay > 0 || bad != "" {
			return
		}
		stale := 0
		for _, x := range n.conns {
			if !x.closed && x.end != nil {
				stale++
			}
		}
		// once the server is healthy, at most one call per dead idle connection fails
		done := vs.GoNamed("after", func() {
			failed := 0
			for i := 0; i < stale+3 && bad == ""; i++ {
				if !check("a later call", fmt.Sprintf("k%d", i), true, bg) {
					failed++
				}
			}
			if failed > stale {
				fail("with a healthy server %d calls in a row fail, %d dead connections were idle", failed, stale)
			}
			for _, k := range []string{"a", "lz", "m:p,n,q", "e1", "n2", "b3"} {
				if !check("a later call", k, true, bg) {
					fail("a call on a healthy server fails")
				}
			}
		})
		vs.WaitQuiescent()
		if !done.Done() {
			fail("a call on a healthy server does not return")
		}
	})
	if msg == "" {
		msg = bad
	}
	return s, msg
}

func c24scens(t bool) (l []callScen) {
	fs := []string{"cut", "close", "garble", "delay", "dial", "cut close garble delay dial"}
	one := [][]string{{"a"}, {"a", "c"}, {"y", "c"}, {"m:a,b", "c"}, {"lx", "c"}, {"e", "c"}, {"n", "c"}, {"b", "c"}, {"a", "m:c,n,d"}, {"a", "lc"}, {"a", "c", "d"}}
	for _, f := range fs {
		for _, o := range one {
			l = append(l, callScen{1, [][]string{o}, f, pick(t, 3, 2), 1, false})
		}
		for _, size := range []int{1, 2} {
			for _, o := range [][][]string{{{"a"}, {"c"}}, {{"a", "c"}, {"d"}}, {{"y"}, {"c", "d"}}, {{"m:a,n"}, {"lc"}}, {{"e"}, {"c"}}, {{"n"}, {"c"}}, {{"lx"}, {"c", "lz"}}, {{"b"}, {"c"}}} {
				e, p := 1, pick(t, 3, 2)
				if f == "close" || f == "dial" || f == "delay" {
					e = pick(t, 3, 2)
				}
				l = append(l, callScen{size, o, f, e, p, false})
			}
			l = append(l, callScen{size, [][]string{{"a"}, {"c"}, {"d"}}, f, 1, pick(t, 2, 1), false})
		}
	}
	for _, f := range []string{"delay", "close", "garble", "cut close garble delay dial"} {
		for _, size := range []int{1, 2} {
			for _, o := range [][][]string{{{"a", "c"}}, {{"a"}, {"c"}}, {{"a", "c"}, {"d"}}, {{"y", "e"}, {"d"}}} {
				if !t && (len(o) > 1 && size > 1 || len(f) > 10 && (size > 1 || len(o) > 1)) {
					continue
				}
				l = append(l, callScen{size, o, f, 1, pick(t, 2, 1), true})
			}
		}
	}
	for i := range errorReplies {
		k := "E" + string(rune('a'+i))
		l = append(l, callScen{1, [][]string{{k, "c", k, "d"}}, "cut close", 1, 1, false})
		l = append(l, callScen{pick(t, 2, 1), [][]string{{k, "c"}, {"d", k}}, "close", 1, pick(t, 2, 1), false})
	}
	for _, f := range fs[:3] {
		l = append(l, callScen{2, [][]string{{"a", "c"}, {"d", "f"}}, f, 2, pick(t, 2, 1), false})
		l = append(l, callScen{3, [][]string{{"a", "m:b,c"}, {"lx"}, {"d"}}, f, 1, pick(t, 2, 1), false})
	}
	return
}

func netTasks(n int, total int, run func(c *Ctx, i int) bool) (ts []Task) {
	if total < n {
		n = total
	}
	for k := 0; k < n; k++ {
		k := k
		ts = append(ts, Task{fmt.Sprintf("scenarios-%d", k), func(c *Ctx) {
			for i := k; i < total; i += n {
				if c.Stop() || run(c, i) {
					return
				}
			}
		}})
	}
	return
}

func init() {
	rule := "every interleaving of the callers at scheduling points (channel operations, selects with every ready arm, locks, atomics, dial, network read, write and close) up to the preemption bound, with every placement of up to the stated number of faults; states = nodes of the choice tree"
	props["C23"] = &Prop{Tasks: func(t bool) []Task {
		l := c23scens(t)
		return netTasks(48, len(l), func(c *Ctx, i int) bool {
			c.Sample(l[i].String())
			return exploreNet(c, l[i].String(), &vs.Explorer{Preempt: l[i].preempt, Env: l[i].env, MaxExec: 400000}, func(e *vs.Explorer) (*vs.Sched, string) { return poolRun(l[i], e) })
		})
	}, Rule: rule, Bounds: func(t bool) string {
		return fmt.Sprintf("%d scenarios: 1-3 callers of up to 3 operations (Get/Put, ExecCommand, Exec, failing handler, cancelled context, Close), capacity 1-3, every pattern of dial and open-handler failures in the first dials, preemptions 1-3", len(c23scens(t)))
	}, Assume: []string{"a context is cancelled by another goroutine at any scheduling point; context timeouts are not modelled separately"}}
	props["C24"] = &Prop{Tasks: func(t bool) []Task {
		l := c24scens(t)
		return netTasks(48, len(l), func(c *Ctx, i int) bool {
			c.Sample(l[i].String())
			return exploreNet(c, l[i].String(), &vs.Explorer{Preempt: l[i].preempt, Env: l[i].env, MaxExec: 400000}, func(e *vs.Explorer) (*vs.Sched, string) { return callRun(l[i], e) })
		})
	}, Rule: rule, Bounds: func(t bool) string {
		return fmt.Sprintf("%d scenarios: 1-3 callers of 1-3 calls over 1-3 connections, each reply cut at every byte, garbled in 13 ways, delayed, or followed by a drop; 1-3 faults per run", len(c24scens(t)))
	}, Assume: []string{"the server never sends bytes that no command asked for, except inside a garbled reply"}}
}
