package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"
)

// command constructors
func set(k, v string) Op                      { return Op{C: "set", K: k, V: v} }
func setnx(k, v string) Op                    { return Op{C: "setnx", K: k, V: v} }
func setex(k, v string, s int64) Op           { return Op{C: "setex", K: k, V: v, A: s} }
func psetex(k, v string, ms int64) Op         { return Op{C: "psetex", K: k, V: v, A: ms} }
func get(k string) Op                         { return Op{C: "get", K: k} }
func getset(k, v string) Op                   { return Op{C: "getset", K: k, V: v} }
func strlen(k string) Op                      { return Op{C: "strlen", K: k} }
func appendOp(k, v string) Op                 { return Op{C: "append", K: k, V: v} }
func setrange(k string, p int64, v string) Op { return Op{C: "setrange", K: k, A: p, V: v} }
func getrange(k string, a, b int64) Op        { return Op{C: "getrange", K: k, A: a, B: b} }
func incr(k string) Op                        { return Op{C: "incr", K: k} }
func decr(k string) Op                        { return Op{C: "decr", K: k} }
func incrby(k string, n int64) Op             { return Op{C: "incrby", K: k, A: n} }
func decrby(k string, n int64) Op             { return Op{C: "decrby", K: k, A: n} }
func incrf(k string, f float64) Op            { return Op{C: "incrbyfloat", K: k, X: f} }
func mset(kv ...string) Op                    { return Op{C: "mset", L: kv} }
func msetnx(kv ...string) Op                  { return Op{C: "msetnx", L: kv} }
func mget(k ...string) Op                     { return Op{C: "mget", L: k} }
func del(k string) Op                         { return Op{C: "del", K: k} }
func exists(k ...string) Op                   { return Op{C: "exists", L: k} }
func typ(k string) Op                         { return Op{C: "type", K: k} }
func flush() Op                               { return Op{C: "flush"} }
func cron() Op                                { return Op{C: "cron"} }
func adv(d time.Duration) Op                  { return Op{C: "adv", A: int64(d)} }
func hset(k, f, v string) Op                  { return Op{C: "hset", K: k, F: f, V: v} }
func hsetnx(k, f, v string) Op                { return Op{C: "hsetnx", K: k, F: f, V: v} }
func hmset(k string, fv ...string) Op         { return Op{C: "hmset", K: k, L: fv} }
func hdel(k string, f ...string) Op           { return Op{C: "hdel", K: k, L: f} }
func hget(k, f string) Op                     { return Op{C: "hget", K: k, F: f} }
func hmget(k string, f ...string) Op          { return Op{C: "hmget", K: k, L: f} }
func hexists(k, f string) Op                  { return Op{C: "hexists", K: k, F: f} }
func hlen(k string) Op                        { return Op{C: "hlen", K: k} }
func hstrlen(k, f string) Op                  { return Op{C: "hstrlen", K: k, F: f} }
func hkeys(k string) Op                       { return Op{C: "hkeys", K: k} }
func hvals(k string) Op                       { return Op{C: "hvals", K: k} }
func hgetall(k string) Op                     { return Op{C: "hgetall", K: k} }
func hincrby(k, f string, n int64) Op         { return Op{C: "hincrby", K: k, F: f, A: n} }
func rpush(k string, v ...string) Op          { return Op{C: "rpush", K: k, L: v} }
func hincrf(k, f string, x float64) Op        { return Op{C: "hincrbyfloat", K: k, F: f, X: x} }

const ms = time.Millisecond

// lookalike texts: text that some number parser accepts, plus plain ones
func lookalikes() []string {
	l := []string{"", "a", "abc", "0", "1", "-1", "00", "007", "01", "-0", "+0", "+5", "-05", "1.0", "1.10", "0.10", "-1.50",
		"1.", ".5", "-.5", "1e3", "1E3", "1e+3", "1e-3", "1e400", "-1e400", "1e-400", "inf", "+inf", "-inf", "Inf", "INF", "infinity",
		"nan", "NaN", "NAN", "0x10", "0X1F", "0x1p-2", "0x1P+3", "0b1", "0o7", "1_000", "0x_1p4", " 1", "1 ", "\t1", "1\n", "1,000",
		"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615",
		"18446744073709551616", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
		"9007199254740993", "-9007199254740993", "9007199254740992", "99999999999999999999", "0.1", "0.30000000000000004",
		"3.141592653589793238462643383279", "100000000000000000000000", "1e22", "1e23", "123456789012345678", "0.000001", "1e-7",
		"5e-324", "1.7976931348623157e308", "true", "nil", "Nil", "null", "OK", "\x00", "a\x00b", "\xff\xfe", "\xc3\x28", "日本", "\r\n",
		"$-1\r\n", "1\x00", "\x001", "1e", "e1", "-", "+", ".", "--1", "++1", "1-1", "1+1", "1e1e1", "1.1.1", "١", "127", "128", "-128", "-129",
		"255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "8388607", "8388608", "10", "100", "1000000", "-10", "12", "13"}
	return l
}

var boundaryLens = []int{0, 1, 2, 3, 7, 8, 9, 11, 12, 13, 15, 16, 17, 19, 20, 21, 22, 31, 32, 33, 43, 44, 45, 63, 64, 65, 100, 127, 128, 129, 252, 253, 254, 255, 256, 257,
	511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 9999, 10000, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537}

// pattern is a string of n bytes without two equal neighbours' shifts (positions are recognizable).
func pattern(n int) string {
	b := make([]byte, n)
	x := uint32(2463534242)
	for i := range b {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b[i] = byte(x >> 11)
	}
	return string(b)
}

func words(alpha string, n int) []string {
	out := []string{""}
	prev := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, p := range prev {
			for _, c := range alpha {
				next = append(next, p+string(c))
			}
		}
		out = append(out, next...)
		prev = next
	}
	return out
}

func uniq(l []string) []string {
	seen := map[string]bool{}
	var o []string
	for _, s := range l {
		if !seen[s] {
			seen[s] = true
			o = append(o, s)
		}
	}
	return o
}

func storesOf(k, v string) []Op {
	l := []Op{set(k, v), setnx(k, v), setex(k, v, 5), psetex(k, v, 5000), getset(k, v), mset(k, v), msetnx(k, v), appendOp(k, v)}
	if v != "" {
		l = append(l, setrange(k, 0, v))
	}
	return l
}

func pick(t bool, a, b int) int {
	if t {
		return a
	}
	return b
}

// obsOf: the commands each property's observation uses.
var obsOf = map[string]string{
	"C01": "get strlen getrange mget",
	"C02": "get exists",
	"C03": "get strlen",
	"C04": "get",
	"C05": "get",
	"C06": "get type strlen getrange exists hget hlen hgetall hkeys hvals mget mexists",
	"C07": "get",
	"C09": "hgetall hkeys hvals hget exists",
	"C10": "hlen hkeys",
	"C11": "hget",
	"C12": "get type hget",
	"C13": "exists get type hget",
}

func seqProp(id string, g func(t bool) []Universe, rule string, assume ...string) {
	f := func(t bool) []Universe {
		us := g(t)
		us = append(us, renamedAll(us)...)
		for i := range us {
			us[i].Obs = obsOf[id]
		}
		return us
	}
	props[id] = &Prop{
		Tasks:  func(t bool) []Task { return seqTasks(f(t)) },
		Bounds: func(t bool) string { return boundsOf(f(t)) },
		Rule: "every history of the listed command alphabets up to the listed depth on a fresh cache, result of every command and a full " +
			"observation of every key compared with the reference model; non-trivial = distinct (deep dump of the real object, model state). " + rule,
		Assume: append([]string{"reference model in go/harness/model.go states the property",
			"exact expiry instant unspecified: no observation at the very nanosecond of a deadline",
			"virtual clock and shims of go/vs behave like time and sync"}, assume...),
	}
}

// renamed is the same universe with other key and field names: long, binary, alike at their beginning or end.
func renamed(u Universe, how string, name func(string) string, depth int) Universe {
	ops := func(l []Op) (out []Op) {
		for _, o := range l {
			switch o.C {
			case "adv", "cron", "flush":
				out = append(out, o)
				continue
			}
			ll := append([]string{}, o.L...)
			for i := range ll {
				switch o.C {
				case "mset", "msetnx", "hmset":
					if i%2 == 0 {
						ll[i] = name(ll[i])
					}
				case "rpush":
				default:
					ll[i] = name(ll[i])
				}
			}
			if o.L != nil {
				o.L = ll
			}
			if o.C[0] == 'h' {
				o.F = name(o.F)
			}
			switch o.C {
			case "mset", "msetnx", "mget", "exists":
			default:
				o.K = name(o.K)
			}
			out = append(out, o)
		}
		return
	}
	u.Name += ", " + how
	u.Setup, u.Ops = ops(u.Setup), ops(u.Ops)
	var keys []string
	for _, k := range u.Keys {
		keys = append(keys, name(k))
	}
	u.Keys, u.Depth, u.MapOrd = keys, depth, false
	u.Fields = []string{name("f"), name("g")}
	return u
}

func renamedAll(us []Universe) (out []Universe) {
	long, tail := pattern(300), pattern(4100)
	n := 0
	for _, u := range us {
		if u.Depth < 3 || n == 4 || len(u.Setup) > 20 {
			continue
		}
		n++
		d := 2
		if len(u.Ops) < 20 {
			d = 3
		}
		out = append(out, renamed(u, "long binary names", func(s string) string { return long + s }, d))
		if n <= 2 {
			out = append(out, renamed(u, "very long names", func(s string) string { return s + tail }, 2))
		}
		out = append(out, renamed(u, "odd names", func(s string) string {
			switch s {
			case "a", "h":
				return ""
			case "k":
				return "\r\n"
			case "b", "i":
				return "\x00"
			case "f":
				return "\xff\xfe\r\n"
			}
			return s + " \x00"
		}, d))
	}
	return
}

func init() {
	seqProp("C01", func(t bool) []Universe {
		var us []Universe
		// every way of storing every interesting text
		vals := lookalikes()
		vals = append(vals, words("01+-.e_xn ", pick(t, 4, 3))...)
		vals = append(vals, words("9.e-0", pick(t, 6, 4))...)
		vals = append(vals, words("inf", 3)...)
		vals = append(vals, words("naN", 3)...)
		for i := 0; i < 256; i++ {
			vals = append(vals, string([]byte{byte(i)}), "1"+string([]byte{byte(i)}), string([]byte{byte(i)})+"1")
		}
		for i := int64(-1000); i <= 1000; i++ {
			vals = append(vals, strconv.FormatInt(i, 10))
		}
		for sh := uint(0); sh < 64; sh++ {
			for d := int64(-1); d <= 1; d++ {
				n := int64(1)<<sh + d
				vals = append(vals, strconv.FormatInt(n, 10), strconv.FormatInt(-n, 10), strconv.FormatUint(uint64(1)<<sh+uint64(d), 10))
			}
		}
		p10 := "1"
		for i := 0; i < 25; i++ {
			vals = append(vals, p10, "-"+p10, strings.Repeat("9", i+1), "0."+strings.Repeat("0", i)+"1", p10+".5", p10+".0")
			p10 += "0"
		}
		var ops []Op
		for _, v := range uniq(vals) {
			ops = append(ops, storesOf("k", v)...)
			if len(v) >= 2 {
				ops = append(ops, Op{C: "set", K: "k", V: v})
			}
		}
		us = append(us, Universe{Name: "store", Ops: ops, Depth: 1, Keys: []string{"k"}})
		// lengths
		ops = nil
		for _, n := range boundaryLens {
			ops = append(ops, storesOf("k", pattern(n))...)
			ops = append(ops, set(pattern(n), "v"), set("k", strings.Repeat("7", n)), set("k", strings.Repeat("0", n)), set("k", strings.Repeat("\x00", n)))
		}
		for _, n := range []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 5<<20 + 3} {
			ops = append(ops, storesOf("k", pattern(n))...)
		}
		us = append(us, Universe{Name: "length", Ops: ops, Depth: 1, Keys: []string{"k"}})
		// texts that only become numbers when pieced together, and back
		var pieces []Op
		for _, v := range []string{"1", "0", "-", "+", ".", "e", "5", "00", "i", "nf", " "} {
			pieces = append(pieces, appendOp("k", v))
		}
		for _, p := range []int64{0, 1, 2} {
			for _, v := range []string{"0", "-", ".", "e"} {
				pieces = append(pieces, setrange("k", p, v))
			}
		}
		pieces = append(pieces, set("k", "10"), set("k", "1.0"))
		us = append(us, Universe{Name: "pieces", Ops: pieces, Depth: pick(t, 6, 5), Plain: 2, Keys: []string{"k"}})
		// overwriting
		var over []Op
		for _, v := range []string{"5", "007", "1.50", "abc", "", "1e3", "9223372036854775807"} {
			over = append(over, set("k", v), getset("k", v), mset("k", v, "j", v), setnx("k", v), msetnx("j", v, "k", v), setex("k", v, 3), psetex("j", v, 3))
		}
		over = append(over, get("k"), incr("k"), incrf("k", 0.5), del("k"), set("K", "upper"), set("", "emptykey"), set("k ", "space"))
		us = append(us, Universe{Name: "overwrite", Ops: over, Depth: pick(t, 4, 3), Plain: 1, Keys: []string{"k", "j", "K", "", "k "}})
		return us
	}, "")

	seqProp("C02", func(t bool) []Universe {
		ops := []Op{setnx("a", "x"), setnx("a", "7"), setnx("b", "y"), msetnx("a", "m", "b", "n"), msetnx("b", "3", "a", "4", "c", "5"), msetnx("a", "q"),
			set("a", "s"), set("a", ""), psetex("a", "p", 10), setex("b", "e", 1), adv(7 * ms), adv(1500 * ms), del("a"), del("b"), flush(), get("a"), exists("a", "b"),
			hset("a", "f", "v"), hdel("a", "f"), append1("a"), incr("a"), getset("a", "g"), mget("a", "b"), strlen("a"), rpush("a", "l")}
		return []Universe{
			{Name: "nx", Ops: ops, Depth: pick(t, 8, 7), Plain: 2, Keys: []string{"a", "b", "c"}, Probe: true, MapOrd: false},
			manyKeys(t),
			{Name: "nx-order", Ops: ops, Depth: 3, Plain: 2, Keys: []string{"a", "b", "c"}, Probe: true, MapOrd: true},
			{Name: "nx-expired", Setup: []Op{psetex("a", "old", 10), psetex("b", "12", 10), setex("c", "z", 2), adv(11 * ms)}, Ops: ops, Depth: pick(t, 7, 6), Plain: 2, Keys: []string{"a", "b", "c"}, Probe: true, MapOrd: true},
		}
	}, "")

	seqProp("C03", func(t bool) []Universe {
		var us []Universe
		var rng []int64
		for i := int64(-9); i <= 9; i++ {
			rng = append(rng, i)
		}
		rng = append(rng, 15, 16, 17, 100, 1<<31-1, 1<<31, -(1 << 31), -(1<<31 + 1), 1<<32, math.MaxInt64, math.MaxInt64-1, math.MinInt64, math.MinInt64+1)
		var gets []Op
		for _, a := range rng {
			for _, b := range rng {
				gets = append(gets, getrange("k", a, b))
			}
		}
		for _, v := range []string{"", "a", "ab", "abcdefg", "a\x00c", "12345", "-1.50", "007", "日本語x", pattern(16), pattern(17)} {
			us = append(us, Universe{Name: "getrange " + q(v), Setup: []Op{set("k", v)}, Ops: gets, Depth: 1, Keys: []string{"k"}})
		}
		us = append(us, Universe{Name: "getrange absent", Ops: gets[:40], Depth: 1, Keys: []string{"k"}},
			Universe{Name: "getrange grown", Setup: []Op{setrange("k", 3, "xyz"), appendOp("k", "12")}, Ops: gets, Depth: 1, Keys: []string{"k"}})
		// window arithmetic: every start length, offset and replacement length
		var ed []Op
		for p := int64(0); p <= 6; p++ {
			for _, v := range []string{"", "X", "YZ", "pqr", "stuvw", "\x00", "9", "-"} {
				ed = append(ed, setrange("k", p, v))
			}
		}
		ed = append(ed, setrange("k", -1, "x"), setrange("k", -1, ""), setrange("k", math.MinInt64, "x"), appendOp("k", ""), appendOp("k", "ab"), appendOp("k", "5"), appendOp("k", "\x00"))
		for _, v := range []string{"", "a", "abc", "abcde", "12345678", "1.5", "-7"} {
			us = append(us, Universe{Name: "edit " + q(v), Setup: []Op{set("k", v)}, Ops: ed, Depth: 2, Plain: 1, Keys: []string{"k"}})
		}
		us = append(us, Universe{Name: "edit absent", Ops: ed, Depth: pick(t, 5, 3), Plain: 1, Keys: []string{"k"}})
		// long strings around allocation boundaries
		var lg []Op
		for _, n := range []int{0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 8192, 16384, 65535, 65536, 65537} {
			lg = append(lg, setrange("k", int64(n), "z"), setrange("k", int64(n), pattern(33)), appendOp("k", pattern(n)))
			if n > 0 {
				lg = append(lg, setrange("k", 0, pattern(n)), setrange("k", 5, pattern(n)), getrange("k", int64(n-1), int64(n+1)), getrange("k", int64(-n), -1), getrange("k", 0, int64(n)))
			}
		}
		us = append(us, Universe{Name: "long", Ops: lg, Depth: 2, Keys: []string{"k"}})
		// far beyond the end
		var far []Op
		for _, n := range []int64{1<<17 + 1, 1<<20 - 1, 1 << 20, 1<<20 + 1, 3<<20 + 5, 17 << 20} {
			far = append(far, setrange("k", n, "z"), setrange("k", n, ""), setrange("j", n, pattern(40)))
		}
		us = append(us, Universe{Name: "far", Setup: []Op{set("k", "abc")}, Ops: far, Depth: 1, Keys: []string{"k", "j"}})
		// edits of values of every origin
		or := []Op{set("k", "10"), incrby("k", 99), incrf("k", 1.5), psetex("k", "hello", 10), adv(7 * ms), del("k"), appendOp("k", "0"), appendOp("k", ""), appendOp("k", "x"),
			setrange("k", 1, "7"), setrange("k", 4, "!"), setrange("k", 0, ""), setrange("k", 3, ""), setrange("k", -2, "a"), getrange("k", 1, -2), getrange("k", -3, 1), strlen("k"), getset("k", "abc"), set("j", "q"), appendOp("j", "w")}
		us = append(us, Universe{Name: "origin", Ops: or, Depth: pick(t, 7, 5), Plain: 2, Keys: []string{"k", "j"}, Probe: true})
		return us
	}, "")

	ints := []int64{0, 1, -1, 2, 9, 10, 99, -10, 127, 128, 255, 256, 32767, 32768, 65536, 1<<31 - 1, 1 << 31, -(1 << 31), -(1<<31 + 1), 1 << 32, 1<<53 - 1, 1 << 53, 1<<53 + 1, -(1<<53 + 1),
		1<<62 - 1, 1 << 62, math.MaxInt64 - 1, math.MaxInt64, math.MinInt64, math.MinInt64 + 1, 1e15, 1e18, 123456789012345678}
	notInts := []string{"", "a", "1a", "a1", "007", "+5", "-0", "1.5", "1.0", "10.00", "1e3", " 1", "1 ", "0x10", "9223372036854775808", "-9223372036854775809", "18446744073709551616", "1_0", "inf", "nan", "--1", "1\x00"}

	seqProp("C04", func(t bool) []Universe {
		var us []Universe
		var ar []Op
		for _, n := range ints {
			ar = append(ar, incrby("k", n), decrby("k", n))
		}
		ar = append(ar, incr("k"), decr("k"))
		// every starting text, every increment, one or two steps
		for _, n := range ints {
			v := strconv.FormatInt(n, 10)
			us = append(us, Universe{Name: "from " + v, Setup: []Op{set("k", v)}, Ops: ar, Depth: 2, Keys: []string{"k"}})
		}
		us = append(us, Universe{Name: "from absent", Ops: ar, Depth: 2, Keys: []string{"k"}})
		us = append(us, Universe{Name: "from expired", Setup: []Op{psetex("k", "41", 5), adv(6 * ms)}, Ops: ar, Depth: 1, Keys: []string{"k"}, Probe: true})
		us = append(us, Universe{Name: "from expired text", Setup: []Op{psetex("k", "abc", 5), adv(6 * ms)}, Ops: ar, Depth: 1, Keys: []string{"k"}, Probe: true})
		for _, v := range notInts {
			us = append(us, Universe{Name: "not integer " + q(v), Setup: []Op{psetex("k", v, 10)}, Ops: []Op{incr("k"), decr("k"), incrby("k", 0), incrby("k", 5), decrby("k", 3), incrby("k", math.MaxInt64), adv(3 * ms)}, Depth: 2, Keys: []string{"k"}, Probe: true})
		}
		// integers that came about in other ways
		or := []Op{set("k", "5"), appendOp("k", "0"), setrange("k", 0, "1"), setrange("k", 1, "9"), incrf("k", 1.5), incrf("k", 0.5), incrf("k", 2), incr("k"), decr("k"), incrby("k", 7), decrby("k", -3),
			setnx("k", "8"), getset("k", "12"), mset("k", "13"), msetnx("k", "14", "j", "15"), psetex("k", "20", 10), setex("k", "abc", 1), adv(7 * ms), del("k"), incr("j"), incrby("k", math.MaxInt64), decrby("k", math.MinInt64), decrby("k", math.MaxInt64), appendOp("k", "x"), hset("k", "f", "1")}
		us = append(us, Universe{Name: "origin", Ops: or, Depth: pick(t, 6, 5), Plain: 2, Keys: []string{"k", "j"}, Probe: true})
		us = append(us, Universe{Name: "origin-deep", Ops: or[:19], Depth: pick(t, 8, 7), Plain: 1, Keys: []string{"k"}, Probe: true})
		return us
	}, "decimal form means the canonical decimal text")

	seqProp("C05", func(t bool) []Universe {
		var us []Universe
		fl := []float64{0, 0.5, -0.5, 1, -1, 1.5, 0.1, 0.2, 0.3, 3, 1e3, 1e-3, 1e10, 1e15, 1e16, 1e17, 1e21, 1e22, 1e100, -1e100, 5e-324, 1e-10, 123456.789, 3.141592653589793, 9007199254740993, 9223372036854775807, -2.5}
		var ar []Op
		for _, f := range fl {
			ar = append(ar, incrf("k", f))
		}
		nums := []string{"0", "1", "-1", "10", "2.5", "-2.5", "0.1", "0.10", "1.0", "007", "+5", "1e3", "1E3", "1e-3", ".5", "5.", "3.14159265358979", "9223372036854775807", "-9223372036854775808", "9223372036854775808",
			"100000000000000000000", "9007199254740993", "1e22", "1e300", "-0", "0.30000000000000004", "12345678901234567890.5"}
		for _, v := range nums {
			us = append(us, Universe{Name: "from " + v, Setup: []Op{set("k", v)}, Ops: ar, Depth: pick(t, 4, 3), Keys: []string{"k"}})
		}
		us = append(us, Universe{Name: "from absent", Ops: ar, Depth: pick(t, 5, 4), Keys: []string{"k"}})
		us = append(us, Universe{Name: "from expired", Setup: []Op{psetex("k", "41.5", 5), adv(6 * ms)}, Ops: ar, Depth: 1, Keys: []string{"k"}, Probe: true})
		us = append(us, Universe{Name: "from expired text", Setup: []Op{psetex("k", "abc", 5), adv(6 * ms)}, Ops: ar[:5], Depth: 1, Keys: []string{"k"}, Probe: true})
		for _, v := range []string{"", "a", "1a", "a1", " 1", "1 ", "1.2.3", "--1", "1e", "e5", "+", "-", ".", "1,5", "\x00", "abc1.5", "1.5abc", "1 2"} {
			us = append(us, Universe{Name: "not a number " + q(v), Setup: []Op{psetex("k", v, 10)}, Ops: []Op{incrf("k", 0), incrf("k", 1.5), incrf("k", -3), adv(3 * ms)}, Depth: 2, Keys: []string{"k"}, Probe: true})
		}
		or := []Op{set("k", "5"), set("k", "0.5"), incrby("k", 7), incr("k"), decr("k"), incrf("k", 1.5), incrf("k", 0.5), incrf("k", -2), incrf("k", 0.1), appendOp("k", "5"), appendOp("k", ".25"), setrange("k", 0, "1"), setnx("k", "8.5"), getset("k", "1.25"), mset("k", "3"), psetex("k", "20.5", 10), adv(7 * ms), del("k"), hset("k", "f", "1"), incrf("j", 1)}
		us = append(us, Universe{Name: "origin", Ops: or, Depth: pick(t, 7, 6), Plain: 2, Keys: []string{"k", "j"}, Probe: true})
		return us
	}, "IEEE double sum of the shown text and the increment; increments and values are finite")

	all := func() []Op { // one of every command on a key that has a deadline
		return []Op{get("a"), strlen("a"), getrange("a", 0, -1), exists("a"), exists("b", "a", "a"), typ("a"), mget("a", "b"), mget("b", "a"), del("a"), setnx("a", "n"), msetnx("a", "m", "b", "m"),
			incr("a"), decr("a"), incrby("a", 5), decrby("a", 2), incrf("a", 0.5), appendOp("a", "9"), setrange("a", 1, "9"), getset("a", "g"), set("a", "s"), mset("a", "1", "b", "2"),
			hget("a", "f"), hset("a", "f", "v"), hsetnx("a", "f", "w"), hdel("a", "f"), hmset("a", "f", "1", "g", "2"), hmget("a", "f"), hexists("a", "f"), hlen("a"), hstrlen("a", "f"), hkeys("a"), hvals("a"), hgetall("a"), hincrby("a", "f", 3), hincrf("a", "f", 0.5), rpush("a", "r"), rpush("a", "p", "", "q")}
	}

	seqProp("C06", func(t bool) []Universe {
		var us []Universe
		base := all()
		base = append(base, setex("a", "1", 1), psetex("a", "22", 10), psetex("b", "x", 4), flush(), adv(3*ms), adv(8*ms), adv(1001*ms))
		us = append(us, Universe{Name: "mixed", Ops: base, Depth: pick(t, 6, 5), Plain: 1, Keys: []string{"a", "b"}, Probe: true})
		// every pair and triple of commands just after and just before the deadline
		for _, v := range []string{"12", "abc", "1.5"} {
			us = append(us, Universe{Name: "expired " + v, Setup: []Op{psetex("a", v, 10), adv(10*ms + 1)}, Ops: all(), Depth: pick(t, 5, 4), Plain: 2, Keys: []string{"a", "b"}, Probe: true})
			us = append(us, Universe{Name: "alive " + v, Setup: []Op{psetex("a", v, 10), adv(10*ms - 1)}, Ops: append(all(), adv(2)), Depth: pick(t, 5, 4), Plain: 2, Keys: []string{"a", "b"}, Probe: true})
		}
		// lifetimes
		var lt []Op
		for _, n := range []int64{1, 2, 3, 9, 10, 59, 60, 61, 999, 1000, 1001, 3600, 86400, 1 << 31, 1<<31 + 1, 1<<32 + 1, 9000000000, 9223372036, 9223372037, 18446744073, 18446744074, 36893488148, 1<<53 + 1, 1 << 61, math.MaxInt64} {
			lt = append(lt, setex("a", "v", n))
		}
		for _, n := range []int64{1, 2, 10, 999, 1000, 1001, 1 << 31, 1<<31 + 1, 1<<32 + 1, 9000000000000, 9223372036854, 9223372036855, 18446744073709, 18446744073710, 36893488147420, 1<<53 + 1, 1 << 61, math.MaxInt64} {
			lt = append(lt, psetex("a", "v", n))
		}
		us = append(us, Universe{Name: "lifetimes", Ops: lt, Depth: 2, Keys: []string{"a"}, Probe: true})
		us = append(us, manyKeys(t))
		// both kinds of lifetime, repeated reads and time steps
		us = append(us, Universe{Name: "steps", Ops: []Op{setex("a", "v", 1), psetex("a", "w", 10), setex("b", "5", 2), psetex("b", "6", 700), get("a"), mget("b", "a"), incr("b"), appendOp("a", "z"), exists("a", "b"), adv(300 * ms), adv(701 * ms), adv(9 * ms), set("a", "p"), del("b")},
			Depth: pick(t, 8, 7), Plain: 2, Keys: []string{"a", "b"}, Probe: true})
		return us
	}, "lifetimes are positive")

	seqProp("C07", func(t bool) []Universe {
		var us []Universe
		w := []Op{set("a", "v"), set("a", "5"), getset("a", "g"), mset("a", "m", "b", "m"), mset("b", "z"), del("a"), flush(), setex("a", "12", 2), psetex("a", "7", 10), psetex("a", "abc", 1500), psetex("b", "8", 20),
			appendOp("a", "1"), appendOp("a", ""), setrange("a", 0, "3"), setrange("a", 2, "x"), setrange("a", -1, "x"), setrange("a", 0, ""), incr("a"), decr("a"), incrby("a", 10), decrby("a", 3), incrby("a", math.MaxInt64), incrf("a", 0.5),
			get("a"), mget("a", "b"), exists("a"), strlen("a"), typ("a"), getrange("a", 0, 1), setnx("a", "n"), msetnx("a", "n", "b", "n"), rpush("a", "l"), hget("a", "f"), hset("a", "f", "v"), hdel("a", "f"), hlen("a"), hgetall("a"), adv(7 * ms), adv(400 * ms), set("b", "q"), del("b")}
		us = append(us, Universe{Name: "deadlines", Ops: w, Depth: pick(t, 6, 4), Plain: 1, Keys: []string{"a", "b"}, Probe: true})
		us = append(us, Universe{Name: "after-ttl", Setup: []Op{psetex("a", "55", 10), psetex("b", "x", 2000)}, Ops: w, Depth: pick(t, 6, 4), Plain: 1, Keys: []string{"a", "b"}, Probe: true, MapOrd: !t})
		us = append(us, Universe{Name: "deep", Setup: []Op{psetex("a", "55", 10)}, Ops: []Op{set("a", "5"), getset("a", "6"), del("a"), psetex("a", "7", 10), setex("a", "8", 1), appendOp("a", "1"), incr("a"), setnx("a", "9"), get("a"), adv(7 * ms), adv(400 * ms), mset("a", "3"), incrf("a", 0.5), setrange("a", 0, "4")},
			Depth: pick(t, 8, 6), Plain: 1, Keys: []string{"a"}, Probe: true})
		us = append(us, manyKeys(t))
		// long values
		for _, n := range []int{100, 600, 5000, 70000} {
			v := pattern(n)
			us = append(us, Universe{Name: fmt.Sprintf("%d bytes", n), Setup: []Op{psetex("a", v, 20), psetex("b", "7", 30)}, Ops: []Op{appendOp("a", "x"), appendOp("a", v), appendOp("b", v), setrange("a", int64(n)+9, "x"), setrange("a", 0, v), setrange("b", 5, v), setrange("b", int64(n), "1"),
				set("a", v), getset("a", v), mset("a", v, "b", v), setnx("b", v), del("b"), appendOp("c", v), get("a"), getrange("a", 0, -1), strlen("a"), adv(7 * ms)}, Depth: 2, Plain: 1, Keys: []string{"a", "b", "c"}, Probe: true})
		}
		// every way of writing every kind of value, the same one included, over a value with a deadline
		for _, v := range []string{"55", "abc", "", "1.5"} {
			var l []Op
			for _, x := range uniq([]string{v, "", "55", "abc", "1.5", "0"}) {
				l = append(l, storesOf("a", x)...)
				l = append(l, mset("a", x, "b", x), psetex("a", x, 10), psetex("a", x, 20), psetex("a", x, 30), setex("a", x, 1))
			}
			l = append(l, incrby("a", 0), decrby("a", 0), incrf("a", 0), setrange("a", 0, ""), getrange("a", 0, -1), del("a"), flush(), adv(5*ms), adv(20*ms+1))
			us = append(us, Universe{Name: "over " + q(v), Setup: []Op{psetex("a", v, 20)}, Ops: l, Depth: pick(t, 3, 2), Plain: 1, Keys: []string{"a", "b"}, Probe: true})
		}
		return us
	}, "")

	// hash writes of every pair of interesting values over each other
	hashPairs := func(t bool) Universe {
		var l []Op
		for _, f := range []string{"f", "g", ""} {
			for _, v := range []string{"", "0", "5", "-1", "1.5", "007", "abc", "\x00"} {
				l = append(l, hset("h", f, v), hsetnx("h", f, v), hmset("h", f, v, "z", v))
			}
			l = append(l, hdel("h", f), hdel("h", f, "z"), hstrlen("h", f), hexists("h", f))
		}
		l = append(l, hset("h", "n", "5"), hdel("h", "n"), hincrby("h", "n", 3), hincrf("h", "n", 1.5), hdel("h", "f", "g", "", "z"), hmset("h", "f", "", "g", ""), hmset("h"), hmget("h", "z", "g", "", "f"), hgetall("h"), hlen("h"), hkeys("h"), hvals("h"), exists("h"), typ("h"), set("h", ""), set("h", "x"), del("h"))
		return Universe{Name: "pairs", Ops: l, Depth: pick(t, 5, 3), Plain: pick(t, 3, 1), Keys: []string{"h"}}
	}
	seqProp("C09", func(t bool) []Universe {
		var us []Universe
		var st []Op
		vals := append(lookalikes(), words("01+-.e", pick(t, 4, 3))...)
		for i := 0; i < 256; i++ {
			vals = append(vals, string([]byte{byte(i)}))
		}
		for _, n := range []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 8192, 65536} {
			vals = append(vals, pattern(n))
		}
		for _, v := range uniq(vals) {
			st = append(st, hset("h", "f", v), hsetnx("h", "f", v), hmset("h", "f", v, "g", "1"), hset("h", v, "x"), hmset("h", v, "12"), hsetnx("h", v, "1.5"))
		}
		us = append(us, Universe{Name: "store", Ops: st, Depth: 1, Keys: []string{"h"}})
		us = append(us, Universe{Name: "store over", Setup: []Op{hmset("h", "f", "7", "g", "q")}, Ops: st, Depth: 1, Keys: []string{"h"}})
		ops := []Op{hset("h", "f", "v"), hset("h", "f", "5"), hset("h", "g", "1.50"), hset("h", "", "e"), hsetnx("h", "f", "n"), hsetnx("h", "g", "7"), hmset("h", "f", "1", "g", "a"), hmset("h", "g", "2", "i", "3", "j", "4"),
			hdel("h", "f"), hdel("h", "g"), hdel("h", "f", "g"), hdel("h", "f", "f"), hdel("h", "x"), hdel("h", "i", "j", ""), hdel("h"), hmset("h"), hget("h", "f"), hget("h", "x"), hmget("h", "f", "x", "g", "f"), hmget("h"), hexists("h", "f"), hexists("h", "x"), hstrlen("h", "f"), hstrlen("h", "x"),
			hlen("h"), hkeys("h"), hvals("h"), hgetall("h"), hset("i", "f", "other"), hdel("i", "f"), hincrby("h", "f", 2), hincrf("h", "g", 0.5), del("h"), exists("h"), typ("h")}
		us = append(us, hashPairs(t))
		us = append(us, Universe{Name: "many fields", Setup: []Op{hmset("h", manyFields(1500)...)}, Ops: []Op{hmset("h", manyFields(1600)...), hmset("h", "f3", "", "new", "x"), hdel("h", fieldNames(1400)...), hdel("h", fieldNames(1600)...), hdel("h", "f1499", "f0"),
			hmget("h", fieldNames(1601)...), hgetall("h"), hkeys("h"), hvals("h"), hset("h", "f700", "z"), hsetnx("h", "f1550", "7")}, Depth: pick(t, 4, 3), Plain: 1, Keys: []string{"h"}})
		us = append(us, Universe{Name: "map", Ops: ops, Depth: pick(t, 5, 4), Plain: 2, Keys: []string{"h", "i"}, MapOrd: false})
		us = append(us, Universe{Name: "map-deep", Ops: []Op{hset("h", "f", "v"), hset("h", "g", "5"), hsetnx("h", "f", "0"), hmset("h", "f", "1", "i", "2"), hdel("h", "f"), hdel("h", "g", "i"), hexists("h", "f"), hincrby("h", "g", 1), set("h", "str"), del("h"), hgetall("h"), hsetnx("h", "i", "z")},
			Depth: pick(t, 7, 6), Plain: 2, Keys: []string{"h"}, MapOrd: true})
		return us
	}, "")

	seqProp("C10", func(t bool) []Universe {
		ops := []Op{hmset("h"), hset("h", "f", "v"), hset("h", "f", "5"), hset("h", "g", "1"), hsetnx("h", "f", "n"), hsetnx("h", "i", "n"), hmset("h", "f", "1", "g", "a"), hmset("h", "g", "2", "i", "3"), hdel("h", "f"), hdel("h", "f", "f"), hdel("h", "g", "x", "i"), hexists("h", "f"), hexists("h", "x"),
			hlen("h"), hincrby("h", "f", 2), hincrby("h", "i", 1), hincrf("h", "g", 0.5), hget("h", "f"), hmget("h", "f", "x"), hgetall("h"), hkeys("h"), hvals("h"), hstrlen("h", "f"), del("h"), set("h", "s"), flush(), hincrby("h", "f", math.MaxInt64)}
		return []Universe{
			{Name: "len", Ops: ops, Depth: pick(t, 6, 5), Plain: 2, Keys: []string{"h"}},
			{Name: "len-populated", Setup: []Op{hmset("h", "f", "1", "g", "b", "i", "2.5", "j", "", "k", "9")}, Ops: ops, Depth: pick(t, 5, 4), Plain: 2, Keys: []string{"h"}, MapOrd: true},
			hashPairs(t),
			{Name: "many", Setup: []Op{hmset("h", manyFields(40)...)}, Ops: ops, Depth: 2, Plain: 1, Keys: []string{"h"}},
			{Name: "thousand", Setup: []Op{hmset("h", manyFields(1500)...), hdel("h", "f3", "f7", "f1499")}, Ops: []Op{hset("h", "f9", "x"), hset("h", "new", "y"), hdel("h", "f5"), hsetnx("h", "f6", "q"), hsetnx("h", "n2", "q")}, Depth: 2, Plain: 1, Keys: []string{"h"}},
		}
	}, "")

	seqProp("C11", func(t bool) []Universe {
		var us []Universe
		var ar []Op
		for _, n := range ints {
			ar = append(ar, hincrby("h", "f", n))
		}
		for _, f := range []float64{0.5, -0.5, -1.5, 3, -1, 1e10, 1e15, 1e16, 1e17, 1e-3, 0.1, 0.2, 0.3, 1e21, 1e22, 1e100, -1e100, 0, 1e-7, 1e-9, 1e-10, 5e-324, 123456.789, 3.141592653589793, 0.30000000000000004, 16777217, 9007199254740993, 9223372036854775807} {
			ar = append(ar, hincrf("h", "f", f))
		}
		for _, n := range ints {
			us = append(us, Universe{Name: fmt.Sprint("from ", n), Setup: []Op{hset("h", "f", strconv.FormatInt(n, 10))}, Ops: ar, Depth: pick(t, 3, 2), Keys: []string{"h"}})
		}
		for _, v := range []string{"2.5", "-0.5", "0.1", "0.123456789", "16777217.5", "123456789012345678", "3.141592653589793", "1e-10", "1e300", ".5", "5.", "-0", "1e3", "1.0", "007", "+5", "100000000000000000000", "9223372036854775808", "a", "1a", " 1", "1.2.3", "abc"} {
			us = append(us, Universe{Name: "from " + v, Setup: []Op{hmset("h", "f", v, "g", "1")}, Ops: ar, Depth: 1, Keys: []string{"h"}})
			us = append(us, Universe{Name: "nx from " + v, Setup: []Op{hsetnx("h", "f", v)}, Ops: ar, Depth: 1, Keys: []string{"h"}})
		}
		us = append(us, Universe{Name: "nx from 41", Setup: []Op{hsetnx("h", "f", "41")}, Ops: ar, Depth: 1, Keys: []string{"h"}})
		us = append(us, Universe{Name: "absent", Ops: ar, Depth: 2, Keys: []string{"h"}})
		or := []Op{hset("h", "f", "5"), hset("h", "f", "2.5"), hset("h", "f", "abc"), hsetnx("h", "f", "7"), hmset("h", "f", "9", "g", "1"), hincrby("h", "f", 3), hincrby("h", "f", -10), hincrby("h", "g", 1), hincrf("h", "f", 0.5), hincrf("h", "f", 2), hincrf("h", "g", 0.25), hdel("h", "f"), hdel("h", "g"), del("h"), hincrby("h", "f", math.MaxInt64), hincrby("h", "f", math.MinInt64), hget("h", "f"), set("h", "5")}
		us = append(us, Universe{Name: "origin", Ops: or, Depth: pick(t, 6, 5), Plain: 2, Keys: []string{"h"}})
		return us
	}, "HIncrBy/HIncrByFloat on a field holding the empty string is not specified")

	seqProp("C12", func(t bool) []Universe {
		var us []Universe
		wt := all()
		wt = append(wt, hmset("a"), rpush("b", "z"), mget("a", "b", "a"), setex("a", "e", 5), psetex("a", "e", 50), adv(7*ms), getrange("a", 5, 2), setrange("a", 0, ""), setrange("a", -1, "x"), appendOp("a", ""), incrby("a", math.MaxInt64), typ("b"), exists("a", "b"))
		us = append(us, Universe{Name: "on hash", Setup: []Op{hmset("a", "f", "1", "g", "x"), set("b", "str")}, Ops: wt, Depth: pick(t, 6, 5), Plain: 1, Keys: []string{"a", "b"}, Probe: true})
		for _, v := range []string{"12", "abc", "1.5", ""} {
			us = append(us, Universe{Name: "on string " + q(v), Setup: []Op{psetex("a", v, 20), hset("b", "f", "v")}, Ops: wt, Depth: 2, Plain: 1, Keys: []string{"a", "b"}, Probe: true})
			us = append(us, Universe{Name: "on plain string " + q(v), Setup: []Op{set("a", v), hset("b", "f", "v")}, Ops: wt, Depth: 1, Plain: 1, Keys: []string{"a", "b"}, Probe: true})
		}
		us = append(us, Universe{Name: "on list", Setup: []Op{rpush("a", "1", "x"), hset("b", "f", "v")}, Ops: append(append([]Op{}, wt...), rpush("b", "n"), rpush("b", ""), rpush("zz"), rpush("a")), Depth: pick(t, 5, 3), Plain: 1, Keys: []string{"a", "b"}, Probe: true})
		us = append(us, Universe{Name: "on hash of empties", Setup: []Op{hmset("a", "", "", "f", ""), set("b", "")}, Ops: wtNoIncr(wt), Depth: 2, Plain: 1, Keys: []string{"a", "b"}, Probe: true})
		us = append(us, Universe{Name: "mixed", Ops: []Op{set("a", "5"), set("a", ""), hset("a", "", ""), setex("a", "6", 1), mset("a", "7"), psetex("a", "8", 10), hset("a", "f", "1"), hsetnx("a", "g", "2"), hmset("a", "f", "3", "g", "4"), hincrby("a", "f", 1), hincrf("a", "f", 1.5), hdel("a", "f"), hdel("a", "f", "g"), del("a"), get("a"), getset("a", "q"), appendOp("a", "1"), incr("a"), incrf("a", 1), setnx("a", "n"), msetnx("a", "n"), typ("a"), adv(7 * ms), strlen("a"), setrange("a", 0, "z"), rpush("a", "1"), rpush("a")},
			Depth: pick(t, 8, 7), Plain: 1, Keys: []string{"a"}, Probe: true})
		return us
	}, "")

	seqProp("C13", func(t bool) []Universe {
		ops := []Op{set("a", "1"), set("b", "x"), set("a", ""), mset("b", "", "c", ""), hset("a", "", ""), psetex("a", "2", 10), setex("b", "y", 1), hset("a", "f", "v"), hset("c", "f", "v"), del("a"), del("b"), del("c"), del("zz"), exists("a"), exists("a", "a", "b", "zz"), exists(), flush(), incr("a"), appendOp("b", "q"), hdel("c", "f"), mset("a", "3", "c", "4"), adv(7 * ms), adv(1200 * ms), getset("b", "z"), hincrby("c", "n", 1), setnx("A", "up"), del("A"), rpush("c", "l"), rpush("b", "l", "m")}
		us := []Universe{{Name: "del", Ops: ops, Depth: pick(t, 7, 6), Plain: 2, Keys: []string{"a", "b", "c", "A"}, Probe: true}}
		// isolation: a populated keyspace with near-equal names, one command on one of them
		keys := []string{"k", "K", "k ", " k", "k\x00", "kk", "", "k1", "k:1", "h", "h:f", "日", "f"}
		var setup []Op
		for i, k := range keys {
			switch i % 3 {
			case 0:
				setup = append(setup, set(k, fmt.Sprint(i)))
			case 1:
				setup = append(setup, psetex(k, "v"+fmt.Sprint(i), int64(10+i)))
			default:
				setup = append(setup, hset(k, "f", fmt.Sprint(i)))
			}
		}
		var iso []Op
		for _, k := range keys {
			for _, o := range all() {
				if o.K == "a" {
					o.K = k
					iso = append(iso, o)
				} else if len(o.L) > 0 {
					l := append([]string{}, o.L...)
					for i := range l {
						if l[i] == "a" {
							l[i] = k
						}
					}
					o.L = l
					iso = append(iso, o)
				}
			}
			iso = append(iso, setex(k, "e", 1), psetex(k, "e", 5))
		}
		us = append(us, Universe{Name: "isolation", Setup: setup, Ops: iso, Depth: 1, Keys: keys, Probe: true, MapOrd: true})
		us = append(us, Universe{Name: "deep", Ops: []Op{set("a", "1"), psetex("a", "2", 10), hset("a", "f", "v"), del("a"), flush(), adv(7 * ms), exists("a", "b"), set("b", "2"), psetex("b", "3", 500), setnx("a", "4"), incr("a"), del("b")}, Depth: pick(t, 9, 8), Plain: 2, Keys: []string{"a", "b"}, Probe: true})
		us = append(us, manyKeys(t))
		us = append(us, Universe{Name: "many", Setup: []Op{mset(manyFields(300)...)}, Ops: []Op{del("f7"), flush(), exists(fieldNames(300)...), set("f9", "q"), get("f5")}, Depth: 3, Plain: 1, Keys: []string{"f7", "f9", "f299", "f300"}})
		return us
	}, "")
}

// manyKeys: 300 keys with deadlines, commands that touch all of them, and a few single ones.
func manyKeys(t bool) Universe {
	all := fieldNames(300)
	return Universe{Name: "many keys", Setup: append(manyExpiring(300), set("f300", "stays")), Ops: []Op{flush(), mset(manyFields(300)...), msetnx(manyFields(310)...), mget(all...), exists(all...),
		del("f7"), set("f3", "q"), getset("f99", "g"), setnx("f250", "n"), appendOp("f120", "1"), incr("f299"), psetex("f42", "again", 5000), adv(1500 * ms), adv(2000 * ms)},
		Depth: pick(t, 4, 3), Plain: 1, Keys: []string{"f0", "f3", "f7", "f42", "f99", "f120", "f250", "f299", "f300", "f305"}, Probe: true}
}

func append1(k string) Op { return appendOp(k, "1") }

func manyFields(n int) []string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, fmt.Sprint("f", i), fmt.Sprint(i))
	}
	return l
}

func fieldNames(n int) []string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, fmt.Sprint("f", i))
	}
	return l
}

// wtNoIncr leaves out hash counters (not specified on empty fields).
func wtNoIncr(l []Op) (o []Op) {
	for _, x := range l {
		if x.C != "hincrby" && x.C != "hincrbyfloat" {
			o = append(o, x)
		}
	}
	return
}
