package main

import (
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/liujiangwei/xxcache/redis"
	"github.com/liujiangwei/xxcache/zzverif/vs"
)

// ---- C21, C22: every method of the Redis client, its request and its result ----

type clientCall struct {
	method string
	desc   string
	run    func(r *redis.Redis) (interface{}, error)
	want   []string
	float  int  // index of an argument compared as a number
	pairs  bool // the arguments are unordered pairs
	kind   byte // 'o' OK, 'i' integer, 's' string, 'f' float, 'x' SetNX, 'm' list
}

func argDomain(t bool) []string {
	l := []string{"k", "", "a b", "\r\n", "k\r\n$3\r\nfoo\r\n", "\x00\xff\x80", "*2\r\n$3\r\nget\r\n", "ключ", "-1", "007", strings.Repeat("x", 100), letters(4090), letters(4096), letters(5000), "\"quoted\"", "'", "{t}", "%s%d", "\\n"}
	if t {
		l = append(l, filler(4095), filler(4097), filler(8192), filler(65536), filler(1<<20), "\n", "\r", "$", "*", "$-1\r\n", "nil", "OK", "set", " ", "  lead", "trail  ")
	}
	return l
}

var intDomain = []int{0, 1, -1, 7, -7, 10, 99, 100, 1000000, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, 1 << 53}
var uintDomain = []uint64{1, 2, 10, 60, 1000, 86400000, math.MaxUint32, math.MaxInt64, math.MaxUint64}
var floatDomain = []float64{0, 1, -1, 0.1, -0.5, 1.5, 3.14159, 1e10, -1e15, 1e-7, 123456789.125, 1e20, 1e-20, 0.30000000000000004, math.MaxFloat64, 4.9e-324}

func clientCalls(t bool) (l []clientCall) {
	add := func(m string, kind byte, run func(r *redis.Redis) (interface{}, error), want ...string) *clientCall {
		l = append(l, clientCall{method: m, kind: kind, run: run, want: want})
		return &l[len(l)-1]
	}
	D := argDomain(t)
	ia := strconv.Itoa
	for i, k := range D {
		k := k
		add("Get", 's', func(r *redis.Redis) (interface{}, error) { return r.Get(k) }, "get", k)
		add("StrLen", 'i', func(r *redis.Redis) (interface{}, error) { return r.StrLen(k) }, "strlen", k)
		add("Incr", 'i', func(r *redis.Redis) (interface{}, error) { return r.Incr(k) }, "incr", k)
		add("Decr", 'i', func(r *redis.Redis) (interface{}, error) { return r.Decr(k) }, "decr", k)
		for j, v := range D {
			if !t && i > 1 && j > 1 && (i+j)%3 != 0 {
				continue
			}
			v := v
			add("Set", 'o', func(r *redis.Redis) (interface{}, error) { return r.Set(k, v) }, "set", k, v)
			add("SetNX", 'x', func(r *redis.Redis) (interface{}, error) { return r.SetNX(k, v) }, "setnx", k, v)
			add("GetSet", 's', func(r *redis.Redis) (interface{}, error) { return r.GetSet(k, v) }, "getset", k, v)
			add("Append", 'i', func(r *redis.Redis) (interface{}, error) { return r.Append(k, v) }, "append", k, v)
			add("MGet", 'm', func(r *redis.Redis) (interface{}, error) { return r.MGet(k, v) }, "mget", k, v)
			add("MGet", 'm', func(r *redis.Redis) (interface{}, error) { return r.MGet(v, "mid", k, k) }, "mget", v, "mid", k, k)
			add("SetEX", 'o', func(r *redis.Redis) (interface{}, error) { return r.SetEX(k, v, 60) }, "setex", k, "60", v)
			add("PSetEX", 'o', func(r *redis.Redis) (interface{}, error) { return r.PSetEX(k, v, 1500) }, "psetex", k, "1500", v)
			add("SetRange", 'i', func(r *redis.Redis) (interface{}, error) { return r.SetRange(k, 3, v) }, "setrange", k, "3", v)
			add("MSet", 'o', func(r *redis.Redis) (interface{}, error) { return r.MSet(map[string]string{k: v}) }, "mset", k, v).pairs = true
			add("MSetNX", 'i', func(r *redis.Redis) (interface{}, error) { return r.MSetNX(map[string]string{k: v}) }, "msetnx", k, v).pairs = true
			if k != v && k != "z" && v != "z" {
				add("MSet", 'o', func(r *redis.Redis) (interface{}, error) { return r.MSet(map[string]string{k: v, v: "", "z": k}) }, "mset", k, v, v, "", "z", k).pairs = true
				add("MSetNX", 'i', func(r *redis.Redis) (interface{}, error) { return r.MSetNX(map[string]string{k: v, v: k, "z": v}) }, "msetnx", k, v, v, k, "z", v).pairs = true
			}
		}
		add("MGet", 'm', func(r *redis.Redis) (interface{}, error) { return r.MGet(k) }, "mget", k)
	}
	for _, k := range []string{"k", "a b\r\n", ""} {
		k := k
		for _, a := range intDomain {
			a := a
			add("IncrBy", 'i', func(r *redis.Redis) (interface{}, error) { return r.IncrBy(k, a) }, "incrby", k, ia(a))
			add("DecrBy", 'i', func(r *redis.Redis) (interface{}, error) { return r.DecrBy(k, a) }, "decrby", k, ia(a))
			add("SetRange", 'i', func(r *redis.Redis) (interface{}, error) { return r.SetRange(k, a, "v") }, "setrange", k, ia(a), "v")
			add("Select", 'o', func(r *redis.Redis) (interface{}, error) { return r.Select(a) }, "select", ia(a))
			for _, b := range intDomain {
				b := b
				add("GetRange", 's', func(r *redis.Redis) (interface{}, error) { return r.GetRange(k, a, b) }, "getrange", k, ia(a), ia(b))
			}
		}
		for _, e := range uintDomain {
			e := e
			s := strconv.FormatUint(e, 10)
			add("SetEX", 'o', func(r *redis.Redis) (interface{}, error) { return r.SetEX(k, "5", e) }, "setex", k, s, "5")
			add("PSetEX", 'o', func(r *redis.Redis) (interface{}, error) { return r.PSetEX(k, "5", e) }, "psetex", k, s, "5")
		}
		for _, f := range floatDomain {
			f := f
			add("IncrByFloat", 'f', func(r *redis.Redis) (interface{}, error) { return r.IncrByFloat(k, f) }, "incrbyfloat", k, strconv.FormatFloat(f, 'g', -1, 64)).float = 2
		}
	}
	var keys []string
	for i := 0; i < 40; i++ {
		keys = append(keys, letters(i))
	}
	many := append([]string{}, keys...)
	add("MGet", 'm', func(r *redis.Redis) (interface{}, error) { return r.MGet(many...) }, append([]string{"mget"}, many...)...)
	kv := map[string]string{}
	w := []string{"mset"}
	for _, k := range keys {
		kv[k] = k + k
		w = append(w, k, k+k)
	}
	add("MSet", 'o', func(r *redis.Redis) (interface{}, error) { return r.MSet(kv) }, w...).pairs = true
	w2 := append([]string{"msetnx"}, w[1:]...)
	add("MSetNX", 'i', func(r *redis.Redis) (interface{}, error) { return r.MSetNX(kv) }, w2...).pairs = true
	// long arguments and long lists of them
	for _, n := range []int{300, 1000, 8191, 32768, 65535, 65536, 1<<20 + 1} {
		v := filler(n)
		add("Get", 's', func(r *redis.Redis) (interface{}, error) { return r.Get(v) }, "get", v)
		add("Set", 'o', func(r *redis.Redis) (interface{}, error) { return r.Set(v, "v") }, "set", v, "v")
		add("Set", 'o', func(r *redis.Redis) (interface{}, error) { return r.Set("k", v) }, "set", "k", v)
		add("SetNX", 'x', func(r *redis.Redis) (interface{}, error) { return r.SetNX("k", v) }, "setnx", "k", v)
		add("GetSet", 's', func(r *redis.Redis) (interface{}, error) { return r.GetSet("k", v) }, "getset", "k", v)
		add("Append", 'i', func(r *redis.Redis) (interface{}, error) { return r.Append("k", v) }, "append", "k", v)
		add("SetEX", 'o', func(r *redis.Redis) (interface{}, error) { return r.SetEX("k", v, 60) }, "setex", "k", "60", v)
		add("PSetEX", 'o', func(r *redis.Redis) (interface{}, error) { return r.PSetEX("k", v, 60) }, "psetex", "k", "60", v)
		add("SetRange", 'i', func(r *redis.Redis) (interface{}, error) { return r.SetRange("k", 7, v) }, "setrange", "k", "7", v)
		add("MSet", 'o', func(r *redis.Redis) (interface{}, error) { return r.MSet(map[string]string{"k": v, v: "k"}) }, "mset", "k", v, v, "k").pairs = true
		add("MSetNX", 'i', func(r *redis.Redis) (interface{}, error) { return r.MSetNX(map[string]string{"k": v, v: "k"}) }, "msetnx", "k", v, v, "k").pairs = true
		add("MGet", 'm', func(r *redis.Redis) (interface{}, error) { return r.MGet(v, "k", v) }, "mget", v, "k", v)
	}
	for _, n := range []int{127, 128, 255, 256, 511, 512, 513, 1023, 1024, 1025, 5000} {
		var ks, ws []string
		kv := map[string]string{}
		for i := 0; i < n; i++ {
			k := fmt.Sprintf("key-%d", i)
			ks = append(ks, k)
			ws = append(ws, k, k)
			kv[k] = k
		}
		add("MGet", 'm', func(r *redis.Redis) (interface{}, error) { return r.MGet(ks...) }, append([]string{"mget"}, ks...)...)
		add("MSet", 'o', func(r *redis.Redis) (interface{}, error) { return r.MSet(kv) }, append([]string{"mset"}, ws...)...).pairs = true
		add("MSetNX", 'i', func(r *redis.Redis) (interface{}, error) { return r.MSetNX(kv) }, append([]string{"msetnx"}, ws...)...).pairs = true
	}
	for i := range l {
		var q []string
		for i, a := range l[i].want[1:] {
			if i == 8 {
				q = append(q, "...")
				break
			}
			q = append(q, short(a))
		}
		l[i].desc = l[i].method + "(" + strings.Join(q, ", ") + ")"
	}
	return
}

// sameRequest compares what the server received with the command the method is named after.
func (cc *clientCall) sameRequest(got []string) bool {
	if len(got) != len(cc.want) || !strings.EqualFold(got[0], cc.want[0]) {
		return false
	}
	if cc.pairs {
		join := func(l []string) (p []string) {
			for i := 1; i+1 < len(l); i += 2 {
				p = append(p, fmt.Sprintf("%q=%q", l[i], l[i+1]))
			}
			sort.Strings(p)
			return
		}
		return strings.Join(join(got), ",") == strings.Join(join(cc.want), ",")
	}
	for i := 1; i < len(got); i++ {
		if cc.float == i && cc.float > 0 {
			a, e1 := strconv.ParseFloat(got[i], 64)
			b, _ := strconv.ParseFloat(cc.want[i], 64)
			if e1 != nil || a != b || strings.ContainsAny(got[i], "xX_ nN") {
				return false
			}
			continue
		}
		if got[i] != cc.want[i] {
			return false
		}
	}
	return true
}

func reqString(args []string) string {
	var q []string
	for _, a := range args {
		q = append(q, short(a))
	}
	return strings.Join(q, " ")
}

func okReply(kind byte) rv {
	switch kind {
	case 'o':
		return simple("OK")
	case 'i', 'x':
		return vint(1)
	case 'f':
		return bulk("1.5")
	case 'm':
		return arr(bulk("v"))
	}
	return bulk("v")
}

func c21tasks(t bool) (tasks []Task) {
	calls := clientCalls(t)
	const parts = 8
	for k := 0; k < parts; k++ {
		k := k
		tasks = append(tasks, Task{fmt.Sprintf("requests-%d", k), func(c *Ctx) {
			for i := k; i < len(calls); i += parts {
				cc := &calls[i]
				if c.Stop() {
					return
				}
				c.Case(func() string { return cc.desc })
				c.R.States++
				c.R.Distinct++
				for _, order := range []int{0, 1} {
					if order == 1 && !cc.pairs {
						continue
					}
					vs.MapOrder = order
					n := &fakeNet{}
					n.onReq = func(s *srvConn, args []string) { s.send(okReply(cc.kind).enc()) }
					var err error
					s, msg := netRun(nil, false, 200000, n, func() {
						r := redis.NewClient(redis.Option{Addr: "master:1", PoolSize: 2})
						_, err = cc.run(r)
					})
					vs.MapOrder = 0
					c.R.Evals++
					c.R.Traces++
					c.R.Transitions += s.Steps
					reqs := n.requests()
					if msg == "" {
						for _, x := range n.conns {
							if x.bad != "" {
								msg = "the server can not read the request: " + x.bad
							} else if len(x.un) > 0 {
								msg = "bytes follow the request: " + short(string(x.un))
							}
							if x.addr != "master:1" {
								msg = "the client connects to " + x.addr
							}
						}
					}
					if msg == "" && len(reqs) != 1 {
						msg = fmt.Sprintf("%d requests are sent: %v (%v)", len(reqs), reqs, err)
					}
					if msg == "" && !cc.sameRequest(reqs[0]) {
						msg = fmt.Sprintf("the request is %s, want %s", reqString(reqs[0]), reqString(cc.want))
					}
					if msg != "" {
						if c.Violate(cc.desc, cc.desc+": "+msg, reqString(cc.want)) {
							return
						}
					}
				}
			}
			c.Sample(calls[k].desc)
		}})
	}
	// several calls on one client: one request each, in order, on whatever connection
	tasks = append(tasks, Task{"sequences", func(c *Ctx) {
		var base []clientCall
		seen := map[string]int{}
		for _, cc := range calls {
			if seen[cc.method] < pick(deep(), 8, 4) {
				seen[cc.method]++
				base = append(base, cc)
			}
		}
		for i := range base {
			for j := range base {
				a, b := &base[i], &base[j]
				if c.Stop() {
					return
				}
				c.Case(func() string { return a.desc + "; " + b.desc })
				c.R.States++
				c.R.Distinct++
				c.R.Traces++
				c.R.Evals++
				n := &fakeNet{}
				var exp []*clientCall
				n.onReq = func(s *srvConn, args []string) { s.send(okReply(exp[len(exp)-1].kind).enc()) }
				got := []int{}
				s, msg := netRun(nil, false, 200000, n, func() {
					r := redis.NewClient(redis.Option{Addr: "master:1", PoolSize: 1})
					for _, cc := range []*clientCall{a, b, a} {
						exp = append(exp, cc)
						cc.run(r)
						got = append(got, n.requestCount())
					}
				})
				c.R.Transitions += s.Steps
				reqs := n.requests()
				if msg == "" && len(reqs) != 3 {
					msg = fmt.Sprintf("%d requests for 3 calls (after each call: %v)", len(reqs), got)
				}
				if msg == "" {
					for x, cc := range exp {
						if !cc.sameRequest(reqs[x]) {
							msg = fmt.Sprintf("request %d is %s, want %s", x, reqString(reqs[x]), reqString(cc.want))
						}
					}
				}
				if msg != "" && c.Violate(a.desc+"; "+b.desc, a.desc+"; "+b.desc+"; "+a.desc+": "+msg, nil) {
					return
				}
			}
		}
		c.Sample("two different calls and a repeat on one connection")
	}})
	// a password and a database are announced on every new connection before the first command
	tasks = append(tasks, Task{"connection-setup", func(c *Ctx) {
		for _, pw := range []string{"", "secret", "a b\r\n", strings.Repeat("p", 5000)} {
			for _, db := range []int{0, 1, 3, 15, 1000} {
				for fail := -1; fail < 2; fail++ {
					for _, failRep := range []string{"-ERR no\r\n", ":1\r\n", ""} {
						name := fmt.Sprintf("password %s database %d, setup step %d answered %q", short(pw), db, fail, failRep)
						if fail < 0 && failRep != "" || c.Stop() {
							continue
						}
						if fail >= 0 && failRep == ":1\r\n" {
							continue
						}
						c.Case(func() string { return name })
						c.R.States++
						c.R.Distinct++
						c.R.Traces++
						c.R.Evals++
						n := &fakeNet{}
						n.onReq = func(s *srvConn, args []string) {
							if len(s.reqs)-1 == fail && s.id == 0 && (isCmd(args, "auth") || isCmd(args, "select")) {
								if failRep == "" {
									s.drop(io.EOF)
								} else {
									s.send(failRep)
								}
								return
							}
							if isCmd(args, "get") {
								s.send(bulk("v").enc())
							} else {
								s.send("+OK\r\n")
							}
						}
						var setup [][]string
						if pw != "" {
							setup = append(setup, []string{"auth", pw})
						}
						if db > 0 {
							setup = append(setup, []string{"select", strconv.Itoa(db)})
						}
						var e1, e2 error
						var v2 string
						s, msg := netRun(nil, false, 200000, n, func() {
							r := redis.NewClient(redis.Option{Addr: "m:1", PoolSize: 1, Password: pw, Database: db})
							_, e1 = r.Get("k")
							v2, e2 = r.Get("j")
						})
						c.R.Transitions += s.Steps
						same := func(a, b [][]string) bool {
							if len(a) != len(b) {
								return false
							}
							for i := range a {
								if len(a[i]) != len(b[i]) || !strings.EqualFold(a[i][0], b[i][0]) || reqString(a[i][1:]) != reqString(b[i][1:]) {
									return false
								}
							}
							return true
						}
						if msg == "" {
							full := append(append([][]string{}, setup...), []string{"get", "k"}, []string{"get", "j"})
							second := append(append([][]string{}, setup...), []string{"get", "j"})
							switch {
							case fail < 0 || fail >= len(setup):
								if e1 != nil || e2 != nil || v2 != "v" || !same(n.requests(), full) {
									msg = fmt.Sprintf("requests %v, errors %v %v", n.requests(), e1, e2)
								}
							case e1 == nil:
								msg = "the setup failed and the call reports no error"
							case !same(n.conns[0].reqs, setup[:fail+1]):
								msg = fmt.Sprintf("after a failed setup the connection is used: %v", n.conns[0].reqs)
							case e2 != nil || v2 != "v" || len(n.conns) != 2 || !same(n.conns[1].reqs, second):
								msg = fmt.Sprintf("the call after a failed setup: %q %v, requests %v", v2, e2, n.requests())
							}
						}
						if msg != "" && c.Violate(name, name+": "+msg, n.requests()) {
							return
						}
					}
				}
			}
		}
		c.Sample("AUTH then SELECT then the command")
	}})
	return
}

// replies of every kind for C22
func replyDomain(t bool) []rv {
	l := []rv{bulk(""), bulk("v"), bulk("0"), bulk("5"), bulk("-1"), bulk("Nil"), bulk("OK"), bulk("\r\n"), bulk("\x00\xff"), bulk("1.5"), bulk("-3.25"), bulk("1e3"), bulk("9223372036854775807"), bulk("abc"), bulk("1.5x"), bulk("$-1\r\n"), bulk("nil"), bulk("(nil)"),
		bulk(letters(4095)), bulk(letters(4096)), bulk(filler(5000)), bulk(filler(70000)), nilv(),
		vint(0), vint(1), vint(-1), vint(5), vint(2), vint(100), vint(math.MaxInt64), vint(math.MinInt64), vint(1 << 33),
		simple("OK"), simple(""), simple("QUEUED"), simple("ok"), simple("PONG"), simple("5"), rerr("ERR x"), rerr("WRONGTYPE Operation against a key holding the wrong kind of value"), rerr(""), rerr("OK"), rerr("Nil"), rerr(letters(5000)),
		arr(), arr(bulk("a")), arr(nilv()), arr(bulk("")), arr(bulk("a"), nilv(), bulk("b")), arr(nilv(), nilv()), arr(bulk("a"), bulk("b"), bulk("c")), arr(vint(1)), arr(simple("OK")), arr(bulk("OK")), arr(rerr("E")), arr(arr(bulk("a"))), arr(bulk("Nil"), nilv(), bulk("\r\n")), arr(bulk(filler(5000)), nilv(), bulk("x")), arr(arr(), bulk("x"))}
	for _, f := range []string{"0.1", "-0.1", "0.30000000000000004", "0.123456789012345678", "3.141592653589793", "-2.718281828459045", "1e-7", "5e-324", "1.7976931348623157e308", "123456789.123456789", "9007199254740993", "4503599627370497.5", "-0", "10", "100.250", "00.5", "+1", "1e400", " 1", "1 ", "1,5", "0x10", "1_0", "--1", "1.2.3"} {
		l = append(l, bulk(f))
	}
	for _, e := range []string{"ERR", "ERR ", "LOADING Redis is loading the dataset in memory", "BUSY x", "MOVED 3999 127.0.0.1:6381", "ASK 3999 127.0.0.1:6381", "NOAUTH Authentication required.", "READONLY x", "MASTERDOWN x", "OOM x", "TRYAGAIN x", " ", "nil", "0", "-1", "+OK", "$1"} {
		l = append(l, rerr(e))
	}
	var many []string
	for i := 0; i < 500; i++ {
		many = append(many, letters(i%97))
	}
	l = append(l, bulks(many...))
	for _, n := range []int{1023, 1024, 1025, 3000} {
		var xs []rv
		for i := 0; i < n; i++ {
			if i%5 == 3 {
				xs = append(xs, nilv())
			} else {
				xs = append(xs, bulk(strconv.Itoa(i)))
			}
		}
		l = append(l, arr(xs...))
	}
	return append(l, bulk(filler(1<<20+1)))
}

// checkResult: does (val, err) say what the reply says? undefined combinations return "".
func checkResult(kind byte, rep rv, raw string, val interface{}, err error) string {
	bad := func(f string, a ...interface{}) string {
		v := fmt.Sprintf("%#v", val)
		if len(v) > 200 {
			v = v[:200] + "..."
		}
		return fmt.Sprintf(f, a...) + fmt.Sprintf(" (returned %s, %v)", v, err)
	}
	needErr := func(why string) string {
		if err == nil {
			return bad("%s and no error is returned", why)
		}
		return ""
	}
	if raw == "*-1\r\n" || rep.k == 'n' {
		return needErr("the server replied nil")
	}
	if rep.k == '-' {
		return needErr("the server replied with an error")
	}
	want := func(ok bool) string {
		if err != nil || !ok {
			return bad("the reply was %s", rep)
		}
		return ""
	}
	wrong := func() string { return needErr(fmt.Sprintf("a reply of the wrong kind %s", rep)) }
	switch kind {
	case 's':
		switch rep.k {
		case '$':
			s, ok := val.(string)
			return want(ok && s == rep.s)
		case '+':
			if s, _ := val.(string); err == nil && s != rep.s {
				return want(false)
			}
			return ""
		}
		return wrong()
	case 'o':
		switch rep.k {
		case '+':
			if rep.s == "OK" {
				return want(val == "OK")
			}
			if s, _ := val.(string); err == nil && s != rep.s {
				return want(false)
			}
			return ""
		}
		return wrong()
	case 'i':
		if rep.k == ':' {
			return want(val == rep.n)
		}
		return wrong()
	case 'x':
		if rep.k == ':' {
			return want(val == strconv.Itoa(rep.n))
		}
		return wrong()
	case 'f':
		if rep.k == '$' {
			f, e := strconv.ParseFloat(rep.s, 64)
			if e != nil {
				return needErr("the reply is not a number")
			}
			return want(val == f)
		}
		if rep.k == '+' {
			return ""
		}
		return wrong()
	case 'm':
		if rep.k != '*' {
			return wrong()
		}
		plain := true
		for _, x := range rep.arr {
			if x.k != '$' && x.k != 'n' {
				plain = false
			}
		}
		if !plain {
			return ""
		}
		l, _ := val.([]interface{})
		if err != nil || len(l) != len(rep.arr) {
			return want(false)
		}
		for i, x := range rep.arr {
			_, isErr := l[i].(error)
			if x.k == 'n' && !isErr || x.k == '$' && l[i] != x.s {
				return bad("element %d of the reply %s is %#v", i, rep, l[i])
			}
		}
	}
	return ""
}

func c22tasks(t bool) (tasks []Task) {
	var base []clientCall
	seen := map[string]int{}
	for _, cc := range clientCalls(false) {
		if cc.method == "MGet" && len(cc.want) != 3 {
			continue
		}
		if seen[cc.method] < 1 {
			seen[cc.method]++
			base = append(base, cc)
		}
	}
	reps := replyDomain(t)
	for _, cc := range base {
		cc := cc
		tasks = append(tasks, Task{"reply-" + cc.method, func(c *Ctx) {
			one := func(rep rv, raw string, cuts []int, pieces int, follow bool) bool {
				name := fmt.Sprintf("%s answered %s", cc.method, rep)
				if raw != rep.enc() {
					name = fmt.Sprintf("%s answered %q", cc.method, raw)
				}
				c.Case(func() string { return fmt.Sprintf("%s cuts %v", name, cuts) })
				n := &fakeNet{pieces: pieces}
				n.onOpen = func(s *srvConn) { s.cuts = cuts }
				n.onReq = func(s *srvConn, args []string) {
					if len(s.reqs) == 1 && s.id == 0 {
						s.send(raw)
					} else {
						s.send(bulk("next").enc())
					}
				}
				var val interface{}
				var err, e2 error
				var v2 string
				s, msg := netRun(nil, false, 2000000, n, func() {
					r := redis.NewClient(redis.Option{Addr: "m:1", PoolSize: 1})
					val, err = cc.run(r)
					if follow {
						v2, e2 = r.Get("after")
					}
				})
				c.R.Evals++
				c.R.Transitions += s.Steps
				if msg == "" {
					msg = checkResult(cc.kind, rep, raw, val, err)
				}
				if msg == "" && follow && (e2 != nil || v2 != "next") {
					msg = fmt.Sprintf("the next call returns %q, %v instead of its own reply", v2, e2)
				}
				if msg != "" {
					return c.Violate(name, fmt.Sprintf("%s, cuts %v: %s", name, cuts, msg), nil)
				}
				return false
			}
			for _, rep := range reps {
				if c.Stop() {
					return
				}
				c.R.States++
				c.R.Distinct++
				c.R.Traces++
				raw := rep.enc()
				if one(rep, raw, nil, 0, true) || one(rep, raw, nil, 0, false) {
					return
				}
				if len(raw) < 10000 && one(rep, raw, nil, 1, true) {
					return
				}
				pos := everyByte(len(raw))
				if len(raw) > 120 {
					pos = []int{1, 5, 6, 7, 8, 4094, 4095, 4096, 4097, len(raw) - 3, len(raw) - 2, len(raw) - 1}
				}
				for i, x := range pos {
					if one(rep, raw, []int{x}, 0, true) {
						return
					}
					if t {
						for _, y := range pos[i+1:] {
							if y > x && one(rep, raw, []int{x, y}, 0, true) {
								return
							}
							if deep() && len(raw) < 24 {
								for z := y + 1; z < len(raw); z++ {
									if y > x && one(rep, raw, []int{x, y, z}, 0, true) {
										return
									}
								}
							}
						}
					}
				}
			}
			one(nilv(), "*-1\r\n", nil, 0, true)
			// the connection is cut inside the reply: never a value
			for _, rep := range reps {
				raw := rep.enc()
				step := 1
				if len(raw) > 200 {
					step = len(raw)/40 + 1
				}
				for cut := 0; cut < len(raw); cut += step {
					if c.Stop() {
						return
					}
					name := fmt.Sprintf("%s: reply %s cut after %d bytes", cc.method, rep, cut)
					c.Case(func() string { return name })
					n := &fakeNet{}
					n.onReq = func(s *srvConn, args []string) { s.send(raw[:cut]); s.drop(io.EOF) }
					var err error
					var val interface{}
					s, msg := netRun(nil, false, 200000, n, func() {
						r := redis.NewClient(redis.Option{Addr: "m:1", PoolSize: 1})
						val, err = cc.run(r)
					})
					c.R.Evals++
					c.R.Transitions += s.Steps
					if msg == "" && err == nil {
						msg = fmt.Sprintf("returns %#v and no error", val)
					}
					if msg != "" && c.Violate(name, name+": "+msg, nil) {
						return
					}
				}
			}
			c.Sample(cc.method + " x " + strconv.Itoa(len(reps)) + " replies")
		}})
	}
	return
}

func init() {
	props["C21"] = &Prop{Tasks: c21tasks, Rule: "every client method with every combination of a domain of argument values, run on the real client over an in-memory network whose server parses the bytes as Redis does; plus all ordered pairs of calls on one connection, and connection setup (password, database) with failures; distinct = different calls",
		Bounds: func(t bool) string {
			return fmt.Sprintf("%d calls; arguments: binary, empty, CRLF, to 1 MiB, 15 integers, 9 lifetimes, 16 floats", len(clientCalls(t)))
		}, Assume: []string{"requests are arrays of bulk strings, as the Redis protocol prescribes for binary arguments"}}
	props["C22"] = &Prop{Tasks: c22tasks, Rule: "every client method x every reply of a domain x fragmentations of the reply, followed by another call on the same connection; and every reply cut at every byte",
		Bounds: func(t bool) string {
			return fmt.Sprintf("%d methods x %d replies, every single cut and every pair of cuts (thorough: every triple of short replies), byte by byte", 18, len(replyDomain(t)))
		}, Assume: []string{"the meaning of a simple string where a bulk string is expected, and of non-bulk elements of MGET, is not specified"}}
}
