package main

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/liujiangwei/xxcache/cache"
	"github.com/liujiangwei/xxcache/zzverif/vs"
)

// Reference model of the cache: written from the properties alone.
type mval struct {
	h      map[string]string // hash if non-nil
	hfl    map[string]bool
	l      []string // list if non-nil
	s      string
	fl     bool // text of a float result: known as a number, any text denoting it is right
	until  time.Time
	hasTTL bool
}

type Model struct {
	m   map[string]*mval
	now time.Time
}

// notString: the key holds something the string commands must refuse.
func (v *mval) notString() bool { return v.h != nil || v.l != nil }

func newModel() *Model { return &Model{m: map[string]*mval{}, now: vs.Epoch} }

func (m *Model) clone() *Model {
	n := &Model{m: make(map[string]*mval, len(m.m)), now: m.now}
	for k, v := range m.m {
		c := *v
		if v.h != nil {
			c.h = make(map[string]string, len(v.h))
			for f, x := range v.h {
				c.h[f] = x
			}
			c.hfl = make(map[string]bool, len(v.hfl))
			for f, x := range v.hfl {
				c.hfl[f] = x
			}
		}
		c.l = append([]string(nil), v.l...)
		n.m[k] = &c
	}
	return n
}

func (m *Model) key() string {
	var ks []string
	for k := range m.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		v := m.m[k]
		if v.hasTTL && m.now.After(v.until) {
			continue
		}
		fmt.Fprintf(&b, "%q=", k)
		if v.h != nil {
			var fs []string
			for f := range v.h {
				fs = append(fs, f)
			}
			sort.Strings(fs)
			for _, f := range fs {
				fmt.Fprintf(&b, "%q:%q,", f, v.h[f])
			}
		} else if v.l != nil {
			fmt.Fprintf(&b, "list%q", v.l)
		} else {
			fmt.Fprintf(&b, "%q", v.s)
		}
		if v.hasTTL {
			fmt.Fprintf(&b, "@%d", v.until.Sub(m.now))
		}
		b.WriteByte(';')
	}
	return b.String()
}

func (m *Model) get(k string) *mval {
	v := m.m[k]
	if v != nil && v.hasTTL && m.now.After(v.until) {
		delete(m.m, k)
		return nil
	}
	return v
}

// lifetimes beyond this are not told apart: the clock is never moved that far
const ages = 250 * 365 * 24 * time.Hour

func lifetime(n int64, unit time.Duration) time.Duration {
	if n > int64(ages/unit) {
		return ages
	}
	return time.Duration(n) * unit
}

// Op is one command; the same value drives the cache and the model.
type Op struct {
	C    string
	K    string
	F    string
	V    string
	L    []string
	A, B int64
	X    float64
}

func (o Op) String() string {
	switch o.C {
	case "set", "setnx", "getset", "append":
		return fmt.Sprintf("%s(%s,%s)", o.C, q(o.K), q(o.V))
	case "setex", "psetex":
		return fmt.Sprintf("%s(%s,%s,%d)", o.C, q(o.K), q(o.V), o.A)
	case "setrange":
		return fmt.Sprintf("setrange(%s,%d,%s)", q(o.K), o.A, q(o.V))
	case "getrange":
		return fmt.Sprintf("getrange(%s,%d,%d)", q(o.K), o.A, o.B)
	case "incrby", "decrby":
		return fmt.Sprintf("%s(%s,%d)", o.C, q(o.K), o.A)
	case "incrbyfloat":
		return fmt.Sprintf("%s(%s,%v)", o.C, q(o.K), o.X)
	case "hincrby":
		return fmt.Sprintf("hincrby(%s,%s,%d)", q(o.K), q(o.F), o.A)
	case "hincrbyfloat":
		return fmt.Sprintf("hincrbyfloat(%s,%s,%v)", q(o.K), q(o.F), o.X)
	case "hset", "hsetnx":
		return fmt.Sprintf("%s(%s,%s,%s)", o.C, q(o.K), q(o.F), q(o.V))
	case "hget", "hexists", "hstrlen":
		return fmt.Sprintf("%s(%s,%s)", o.C, q(o.K), q(o.F))
	case "hmset", "hmget", "hdel", "rpush":
		return fmt.Sprintf("%s(%s,%s)", o.C, q(o.K), ql(o.L))
	case "mset", "msetnx", "mget", "exists":
		return fmt.Sprintf("%s(%s)", o.C, ql(o.L))
	case "adv":
		return fmt.Sprintf("advance(%s)", time.Duration(o.A))
	case "flush", "cron":
		return o.C
	}
	return fmt.Sprintf("%s(%s)", o.C, q(o.K))
}

func q(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%q..[%d bytes]", s[:16], len(s))
	}
	return strconv.Quote(s)
}

func ql(l []string) string {
	var o []string
	for i, s := range l {
		if n := len(l); n > 16 && i >= 6 && i < n-6 {
			if i == 6 {
				o = append(o, fmt.Sprintf("..%d..", n-12))
			}
			continue
		}
		o = append(o, q(s))
	}
	return strings.Join(o, ",")
}

func opsString(l []Op) string {
	var o []string
	for _, x := range l {
		o = append(o, x.String())
	}
	return strings.Join(o, " ; ")
}

// Res is a normalized result.
type Res struct {
	E string // "" ok, "nil", "wrong", "err"
	N int
	X float64
	S string
	L []string
	// which parts count
	Has byte // 'n','x','s','l',0
	fl  bool // S/L elements denote floats (compare as numbers)
}

func (r Res) String() string {
	if r.E != "" {
		return "error:" + r.E
	}
	switch r.Has {
	case 'n':
		return fmt.Sprint(r.N)
	case 'x':
		return fmt.Sprint(r.X)
	case 's':
		return q(r.S)
	case 'l':
		return "[" + ql(r.L) + "]"
	}
	return "ok"
}

func sameNum(a, b string) bool {
	if a == b {
		return true
	}
	x, e1 := strconv.ParseFloat(a, 64)
	y, e2 := strconv.ParseFloat(b, 64)
	return e1 == nil && e2 == nil && x == y
}

// match: does the observed result satisfy the model's.
func match(got, want Res) bool {
	if want.E == "err" {
		return got.E != ""
	}
	if got.E != want.E {
		return false
	}
	if want.E != "" {
		return true
	}
	switch want.Has {
	case 'n':
		return got.N == want.N
	case 'x':
		return got.X == want.X
	case 's':
		if want.fl {
			return sameNum(got.S, want.S)
		}
		return got.S == want.S
	case 'l':
		if len(got.L) != len(want.L) {
			return false
		}
		for i := range got.L {
			if got.L[i] != want.L[i] && !(want.fl && sameTagged(got.L[i], want.L[i])) {
				return false
			}
		}
	}
	return true
}

func sameTagged(a, b string) bool {
	i, j := strings.LastIndexByte(a, '='), strings.LastIndexByte(b, '=')
	return i >= 0 && i == j && a[:i] == b[:j] && sameNum(a[i+1:], b[j+1:])
}

func errKind(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, cache.ErrKeyNil):
		return "nil"
	case errors.Is(err, cache.ErrWrongType):
		return "wrong"
	}
	return "err"
}

func rn(n int, err error) Res      { return Res{E: errKind(err), N: n, Has: 'n'} }
func rs(s string, err error) Res   { return Res{E: errKind(err), S: s, Has: 's'} }
func rx(x float64, err error) Res  { return Res{E: errKind(err), X: x, Has: 'x'} }
func rok(s string, err error) Res  { return Res{E: errKind(err)} }
func rl(l []string, err error) Res { return Res{E: errKind(err), L: l, Has: 'l'} }
func sorted(l []string) []string   { sort.Strings(l); return l }
func tagged(k, v string) string    { return k + "=" + v }
func taggedErr(k, e string) string { return k + "!" + e }
func pairs(l []string) map[string]string {
	m := map[string]string{}
	for i := 0; i+1 < len(l); i += 2 {
		m[l[i]] = l[i+1]
	}
	return m
}

func elems(keys []string, vals []interface{}) []string {
	if len(keys) != len(vals) {
		return []string{fmt.Sprintf("wrong length %d for %d keys", len(vals), len(keys))}
	}
	var out []string
	for i, v := range vals {
		switch x := v.(type) {
		case string:
			out = append(out, tagged(keys[i], x))
		case error:
			out = append(out, taggedErr(keys[i], errKind(x)))
		default:
			out = append(out, fmt.Sprintf("%s: unexpected %T", keys[i], v))
		}
	}
	return out
}

// What a command was given and what it returned belongs to the caller: both are written over
// after the call, so that a cache that keeps or hands out its own memory is found out.
const scribbled = "\x00scribbled"

func scribble(l []string) {
	for i := range l[:cap(l)] {
		l[:cap(l)][i] = scribbled
	}
}

func scribbleVals(l []interface{}) {
	for i := range l[:cap(l)] {
		l[:cap(l)][i] = scribbled
	}
}

func scribbleMap(m map[string]string) {
	if m == nil {
		return
	}
	for k := range m {
		m[k] = scribbled
	}
	m[scribbled] = scribbled
}

// apply runs the command on the real cache.
func apply(c *cache.Cache, o Op) (r Res) {
	switch o.C {
	case "set":
		return rok(c.Set(o.K, o.V))
	case "setnx":
		return rn(c.SetNX(o.K, o.V))
	case "setex":
		return rok(c.SetEX(o.K, o.V, o.A))
	case "psetex":
		return rok(c.PSetEX(o.K, o.V, o.A))
	case "get":
		return rs(c.Get(o.K))
	case "getset":
		return rs(c.GetSet(o.K, o.V))
	case "strlen":
		return rn(c.StrLen(o.K))
	case "append":
		return rn(c.Append(o.K, o.V))
	case "setrange":
		return rn(c.SetRange(o.K, int(o.A), o.V))
	case "getrange":
		return rs(c.GetRange(o.K, int(o.A), int(o.B)))
	case "incr":
		return rn(c.Incr(o.K))
	case "decr":
		return rn(c.Decr(o.K))
	case "incrby":
		return rn(c.IncrBy(o.K, o.A))
	case "decrby":
		return rn(c.DecrBy(o.K, o.A))
	case "incrbyfloat":
		return rx(c.IncrByFloat(o.K, o.X))
	case "mset":
		kv := pairs(o.L)
		c.MSet(kv)
		scribbleMap(kv)
		return Res{}
	case "msetnx":
		kv := pairs(o.L)
		n := c.MSetNX(kv)
		scribbleMap(kv)
		return rn(n, nil)
	case "mget":
		ks := append([]string(nil), o.L...)
		v := c.MGet(ks...)
		r := rl(elems(o.L, v), nil)
		scribble(ks)
		scribbleVals(v)
		return r
	case "del":
		return rn(c.Del(o.K), nil)
	case "exists":
		ks := append([]string(nil), o.L...)
		n := c.Exists(ks...)
		scribble(ks)
		return rn(n, nil)
	case "type":
		return rs(c.Type(o.K), nil)
	case "flush":
		c.Flush()
		return Res{}
	case "rpush":
		vals := append([]string(nil), o.L...)
		n, err := c.RPush(o.K, vals...)
		scribble(vals)
		return rn(n, err)
	case "hset":
		return rn(c.HSet(o.K, o.F, o.V))
	case "hsetnx":
		return rn(c.HSetNX(o.K, o.F, o.V))
	case "hmset":
		fv := pairs(o.L)
		n, err := c.HMSet(o.K, fv)
		scribbleMap(fv)
		return rn(n, err)
	case "hdel":
		fs := append([]string(nil), o.L...)
		n, err := c.HDel(o.K, fs...)
		scribble(fs)
		return rn(n, err)
	case "hget":
		return rs(c.HGet(o.K, o.F))
	case "hmget":
		fs := append([]string(nil), o.L...)
		v, err := c.HMGet(o.K, fs...)
		scribble(fs)
		if err != nil {
			return rl(nil, err)
		}
		r := rl(elems(o.L, v), err)
		scribbleVals(v)
		return r
	case "hexists":
		return rn(c.HExists(o.K, o.F))
	case "hlen":
		return rn(c.HLen(o.K))
	case "hstrlen":
		return rn(c.HStrLen(o.K, o.F))
	case "hkeys":
		l, err := c.HKeys(o.K)
		r := rl(sorted(append([]string(nil), l...)), err)
		scribble(l)
		return r
	case "hvals":
		l, err := c.HVals(o.K)
		r := rl(sorted(append([]string(nil), l...)), err)
		scribble(l)
		return r
	case "hgetall":
		m, err := c.HGetAll(o.K)
		var l []string
		for f, v := range m {
			l = append(l, tagged(f, v))
		}
		scribbleMap(m)
		return rl(sorted(l), err)
	case "hincrby":
		return rn(c.HIncrBy(o.K, o.F, int(o.A)))
	case "hincrbyfloat":
		return rx(c.HIncrByFloat(o.K, o.F, o.X))
	case "cron":
		c.Cron()
		return Res{}
	case "adv":
		vs.Advance(time.Duration(o.A))
		return Res{}
	}
	panic("unknown op " + o.C)
}

func canonInt(s string) (int64, bool) {
	n, err := strconv.ParseInt(s, 10, 64)
	return n, err == nil && strconv.FormatInt(n, 10) == s
}

func addOverflow(a, b int64) (int64, bool) {
	c := a + b
	if (b > 0 && c < a) || (b < 0 && c > a) {
		return 0, true
	}
	return c, false
}

func fmtFloat(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

func eres(e string) Res { return Res{E: e} }

// apply gives the specified result and changes the model.
func (m *Model) apply(o Op) Res {
	n := func(i int) Res { return Res{N: i, Has: 'n'} }
	switch o.C {
	case "set":
		m.m[o.K] = &mval{s: o.V}
		return Res{}
	case "setnx":
		if m.get(o.K) != nil {
			return n(0)
		}
		m.m[o.K] = &mval{s: o.V}
		return n(1)
	case "setex":
		m.m[o.K] = &mval{s: o.V, hasTTL: true, until: m.now.Add(lifetime(o.A, time.Second))}
		return Res{}
	case "psetex":
		m.m[o.K] = &mval{s: o.V, hasTTL: true, until: m.now.Add(lifetime(o.A, time.Millisecond))}
		return Res{}
	case "get":
		v := m.get(o.K)
		if v == nil {
			return eres("nil")
		}
		if v.notString() {
			return eres("wrong")
		}
		return Res{S: v.s, Has: 's', fl: v.fl}
	case "getset":
		v := m.get(o.K)
		if v != nil && v.notString() {
			return eres("wrong")
		}
		m.m[o.K] = &mval{s: o.V}
		if v == nil {
			return eres("nil")
		}
		return Res{S: v.s, Has: 's', fl: v.fl}
	case "strlen":
		v := m.get(o.K)
		if v == nil {
			return n(0)
		}
		if v.notString() {
			return eres("wrong")
		}
		return n(len(v.s))
	case "append":
		v := m.get(o.K)
		if v != nil && v.notString() {
			return eres("wrong")
		}
		if v == nil {
			v = &mval{}
			m.m[o.K] = v
		}
		v.s += o.V
		v.fl = false
		return n(len(v.s))
	case "setrange":
		if o.A < 0 {
			return eres("err")
		}
		v := m.get(o.K)
		if v != nil && v.notString() {
			return eres("wrong")
		}
		if o.V == "" {
			if v == nil {
				return n(0)
			}
			return n(len(v.s))
		}
		if v == nil {
			v = &mval{}
			m.m[o.K] = v
		}
		b := []byte(v.s)
		if need := int(o.A) + len(o.V); len(b) < need {
			b = append(b, make([]byte, need-len(b))...)
		}
		copy(b[o.A:], o.V)
		v.s = string(b)
		v.fl = false
		return n(len(v.s))
	case "getrange":
		v := m.get(o.K)
		if v == nil {
			return Res{Has: 's'}
		}
		if v.notString() {
			return eres("wrong")
		}
		l := int64(len(v.s))
		a, b := o.A, o.B
		if a < 0 {
			a += l
		}
		if b < 0 {
			b += l
		}
		if a < 0 {
			a = 0
		}
		if b >= l {
			b = l - 1
		}
		if a > b {
			return Res{Has: 's'}
		}
		return Res{S: v.s[a : b+1], Has: 's'}
	case "incr":
		return m.incr(o.K, 1, false)
	case "decr":
		return m.incr(o.K, 1, true)
	case "incrby":
		return m.incr(o.K, o.A, false)
	case "decrby":
		return m.incr(o.K, o.A, true)
	case "incrbyfloat":
		v := m.get(o.K)
		if v != nil && v.notString() {
			return eres("wrong")
		}
		cur := 0.0
		if v != nil {
			f, err := strconv.ParseFloat(v.s, 64)
			if err != nil {
				return eres("err")
			}
			cur = f
		} else {
			v = &mval{}
		}
		s := cur + o.X
		if math.IsNaN(s) || math.IsInf(s, 0) {
			return eres("err")
		}
		m.m[o.K] = v
		v.s, v.fl = fmtFloat(s), true
		return Res{X: s, Has: 'x'}
	case "mset":
		for k, x := range pairs(o.L) {
			m.m[k] = &mval{s: x}
		}
		return Res{}
	case "msetnx":
		c := 0
		for k, x := range pairs(o.L) {
			if m.get(k) == nil {
				m.m[k] = &mval{s: x}
				c++
			}
		}
		return n(c)
	case "mget":
		var l []string
		fl := false
		for _, k := range o.L {
			v := m.get(k)
			switch {
			case v == nil:
				l = append(l, taggedErr(k, "nil"))
			case v.notString():
				l = append(l, taggedErr(k, "wrong"))
			default:
				l = append(l, tagged(k, v.s))
				fl = fl || v.fl
			}
		}
		return Res{L: l, Has: 'l', fl: fl}
	case "del":
		if m.get(o.K) != nil {
			delete(m.m, o.K)
			return n(1)
		}
		return n(0)
	case "exists":
		c := 0
		for _, k := range o.L {
			if m.get(k) != nil {
				c++
			}
		}
		return n(c)
	case "type":
		v := m.get(o.K)
		switch {
		case v == nil:
			return Res{S: "none", Has: 's'}
		case v.h != nil:
			return Res{S: "hash", Has: 's'}
		case v.l != nil:
			return Res{S: "list", Has: 's'}
		}
		return Res{S: "string", Has: 's'}
	case "rpush":
		v := m.get(o.K)
		if v != nil && v.l == nil {
			return eres("wrong")
		}
		if v == nil && len(o.L) == 0 {
			return n(0)
		}
		if v == nil {
			v = &mval{}
			m.m[o.K] = v
		}
		v.l = append(v.l, o.L...)
		return n(len(v.l))
	case "flush":
		m.m = map[string]*mval{}
		return Res{}
	case "cron":
		return Res{}
	case "adv":
		m.now = m.now.Add(time.Duration(o.A))
		return Res{}
	}
	// hash commands
	v := m.get(o.K)
	if v != nil && v.h == nil {
		return eres("wrong")
	}
	var h map[string]string
	if v != nil {
		h = v.h
	}
	mk := func() {
		if v == nil {
			v = &mval{h: map[string]string{}, hfl: map[string]bool{}}
			m.m[o.K] = v
			h = v.h
		}
	}
	set := func(f, x string) int {
		mk()
		_, had := h[f]
		h[f] = x
		v.hfl[f] = false
		if had {
			return 0
		}
		return 1
	}
	switch o.C {
	case "hset":
		return n(set(o.F, o.V))
	case "hsetnx":
		if _, ok := h[o.F]; ok {
			return n(0)
		}
		return n(set(o.F, o.V))
	case "hmset":
		c := 0
		for f, x := range pairs(o.L) {
			c += set(f, x)
		}
		return n(c)
	case "hdel":
		c := 0
		for _, f := range o.L {
			if _, ok := h[f]; ok {
				delete(h, f)
				c++
			}
		}
		if v != nil && len(h) == 0 {
			delete(m.m, o.K)
		}
		return n(c)
	case "hget":
		if x, ok := h[o.F]; ok {
			return Res{S: x, Has: 's', fl: v.hfl[o.F]}
		}
		return eres("nil")
	case "hmget":
		var l []string
		fl := false
		for _, f := range o.L {
			if x, ok := h[f]; ok {
				l = append(l, tagged(f, x))
				fl = fl || v.hfl[f]
			} else {
				l = append(l, taggedErr(f, "nil"))
			}
		}
		return Res{L: l, Has: 'l', fl: fl}
	case "hexists":
		if _, ok := h[o.F]; ok {
			return n(1)
		}
		return n(0)
	case "hlen":
		return n(len(h))
	case "hstrlen":
		return n(len(h[o.F]))
	case "hkeys":
		var l []string
		for f := range h {
			l = append(l, f)
		}
		return Res{L: sorted(l), Has: 'l'}
	case "hvals":
		var l []string
		for _, x := range h {
			l = append(l, x)
		}
		return Res{L: sorted(l), Has: 'l'}
	case "hgetall":
		var l []string
		fl := false
		for f, x := range h {
			l = append(l, tagged(f, x))
			fl = fl || v.hfl[f]
		}
		return Res{L: sorted(l), Has: 'l', fl: fl}
	case "hincrby":
		cur := int64(0)
		if x, ok := h[o.F]; ok {
			c, ok := canonInt(x)
			if !ok {
				return eres("err")
			}
			cur = c
		}
		s, ov := addOverflow(cur, o.A)
		if ov {
			return eres("err")
		}
		set(o.F, strconv.FormatInt(s, 10))
		return n(int(s))
	case "hincrbyfloat":
		cur := 0.0
		if x, ok := h[o.F]; ok {
			f, err := strconv.ParseFloat(x, 64)
			if err != nil {
				return eres("err")
			}
			cur = f
		}
		s := cur + o.X
		if math.IsNaN(s) || math.IsInf(s, 0) {
			return eres("err")
		}
		set(o.F, fmtFloat(s))
		v.hfl[o.F] = true
		return Res{X: s, Has: 'x'}
	}
	panic("model: unknown op " + o.C)
}

func (m *Model) incr(k string, by int64, neg bool) Res {
	v := m.get(k)
	if v != nil && v.notString() {
		return eres("wrong")
	}
	cur := int64(0)
	if v != nil {
		c, ok := canonInt(v.s)
		if !ok {
			return eres("err")
		}
		cur = c
	}
	var s int64
	var ov bool
	if neg {
		s = cur - by
		ov = (by > 0 && s > cur) || (by < 0 && s < cur)
	} else {
		s, ov = addOverflow(cur, by)
	}
	if ov {
		return eres("err")
	}
	if v == nil {
		v = &mval{}
		m.m[k] = v
	}
	v.s, v.fl = strconv.FormatInt(s, 10), false
	return Res{N: int(s), Has: 'n'}
}

// adopt takes over the texts the cache shows for float results once they are known to denote the
// right number (the properties fix the number, not its spelling).
func (m *Model) adopt(c *cache.Cache, o Op) {
	switch o.C {
	case "incrbyfloat":
		if v := m.m[o.K]; v != nil && v.fl {
			if s, err := c.Get(o.K); err == nil && sameNum(s, v.s) {
				v.s, v.fl = s, false
			}
		}
	case "hincrbyfloat":
		if v := m.m[o.K]; v != nil && v.h != nil && v.hfl[o.F] {
			if s, err := c.HGet(o.K, o.F); err == nil && sameNum(s, v.h[o.F]) {
				v.h[o.F], v.hfl[o.F] = s, false
			}
		}
	}
}
