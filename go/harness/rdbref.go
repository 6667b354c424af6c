package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"strconv"
	"strings"
)

// ---- reference encoders of the RDB format and its compact encodings (Redis 2 to 6) ----

func encLen6(n uint64) string  { return string([]byte{byte(n)}) }
func encLen14(n uint64) string { return string([]byte{0x40 | byte(n>>8), byte(n)}) }
func encLen32(n uint64) string {
	b := make([]byte, 5)
	b[0] = 0x80
	binary.BigEndian.PutUint32(b[1:], uint32(n))
	return string(b)
}
func encLen64(n uint64) string {
	b := make([]byte, 9)
	b[0] = 0x81
	binary.BigEndian.PutUint64(b[1:], n)
	return string(b)
}
func encLen(n uint64) string {
	switch {
	case n < 64:
		return encLen6(n)
	case n < 16384:
		return encLen14(n)
	case n <= math.MaxUint32:
		return encLen32(n)
	}
	return encLen64(n)
}

// le writes the low n bytes of v, little endian.
func le(v uint64, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v >> (8 * uint(i)))
	}
	return string(b)
}

func encStr(s string) string { return encLen(uint64(len(s))) + s }
func encI8(v int64) string   { return "\xc0" + le(uint64(v), 1) }
func encI16(v int64) string  { return "\xc1" + le(uint64(v), 2) }
func encI32(v int64) string  { return "\xc2" + le(uint64(v), 4) }
func encLzf(c, orig string) string {
	return "\xc3" + encLen(uint64(len(c))) + encLen(uint64(len(orig))) + c
}

// lzfRef compresses greedily (valid LZF, not the library's encoder); "" if it does not get shorter.
func lzfRef(s string) string {
	var out []byte
	var lit []byte
	flush := func() {
		for len(lit) > 0 {
			n := len(lit)
			if n > 32 {
				n = 32
			}
			out = append(out, byte(n-1))
			out = append(out, lit[:n]...)
			lit = lit[n:]
		}
	}
	last := map[string]int{}
	for i := 0; i < len(s); {
		best, off := 0, 0
		if i+3 <= len(s) {
			if j, ok := last[s[i:i+3]]; ok && i-j <= 8192 {
				n := 3
				for n < 264 && i+n < len(s) && s[j+n] == s[i+n] {
					n++
				}
				best, off = n, i-j-1
			}
		}
		n := 1
		if best >= 3 {
			flush()
			out = append(out, lzfBack(best, off)...)
			n = best
		} else {
			lit = append(lit, s[i])
		}
		for k := 0; k < n; k++ {
			if i+k+3 <= len(s) {
				last[s[i+k:i+k+3]] = i + k
			}
		}
		i += n
	}
	flush()
	return string(out)
}

func lzfBack(n, off int) []byte {
	l := n - 2
	if l < 7 {
		return []byte{byte(l<<5) | byte(off>>8), byte(off)}
	}
	return []byte{7<<5 | byte(off>>8), byte(l - 7), byte(off)}
}

func lzfLit(s string) []byte { return append([]byte{byte(len(s) - 1)}, s...) }

// lzfDecode is the reference decoder; ok is false for data that is not an LZF stream.
func lzfDecode(c string) (out string, ok bool) {
	var o []byte
	for i := 0; i < len(c); {
		x := int(c[i])
		i++
		if x < 32 {
			if i+x+1 > len(c) {
				return "", false
			}
			o = append(o, c[i:i+x+1]...)
			i += x + 1
			continue
		}
		n := x >> 5
		if n == 7 {
			if i >= len(c) {
				return "", false
			}
			n += int(c[i])
			i++
		}
		if i >= len(c) {
			return "", false
		}
		off := (x&31)<<8 | int(c[i])
		i++
		j := len(o) - off - 1
		if j < 0 {
			return "", false
		}
		for k := 0; k < n+2; k++ {
			o = append(o, o[j+k])
		}
	}
	return string(o), true
}

// ---- ziplist ----

type zent struct {
	raw  string // encoding and content
	text string // what it denotes
}

func zs6(s string) zent  { return zent{string([]byte{byte(len(s))}) + s, s} }
func zs14(s string) zent { return zent{string([]byte{0x40 | byte(len(s)>>8), byte(len(s))}) + s, s} }
func zs32(s string) zent {
	b := make([]byte, 5)
	b[0] = 0x80
	binary.BigEndian.PutUint32(b[1:], uint32(len(s)))
	return zent{string(b) + s, s}
}
func zstr(s string) zent {
	switch {
	case len(s) <= 63:
		return zs6(s)
	case len(s) <= 16383:
		return zs14(s)
	}
	return zs32(s)
}
func dec(v int64) string { return strconv.FormatInt(v, 10) }
func zimm(v int64) zent  { return zent{string([]byte{0xf1 + byte(v)}), dec(v)} }
func zi8(v int64) zent   { return zent{"\xfe" + le(uint64(v), 1), dec(v)} }
func zi16(v int64) zent  { return zent{"\xc0" + le(uint64(v), 2), dec(v)} }
func zi24(v int64) zent  { return zent{"\xf0" + le(uint64(v), 3), dec(v)} }
func zi32(v int64) zent  { return zent{"\xd0" + le(uint64(v), 4), dec(v)} }
func zi64(v int64) zent  { return zent{"\xe0" + le(uint64(v), 8), dec(v)} }
func zint(v int64) zent {
	switch {
	case v >= 0 && v <= 12:
		return zimm(v)
	case v >= -128 && v <= 127:
		return zi8(v)
	case v >= -32768 && v <= 32767:
		return zi16(v)
	case v >= -8388608 && v <= 8388607:
		return zi24(v)
	case v >= -2147483648 && v <= 2147483647:
		return zi32(v)
	}
	return zi64(v)
}

// zauto is the entry Redis writes for a string: integers in their smallest form.
func zauto(s string) zent {
	if v, err := strconv.ParseInt(s, 10, 64); err == nil && dec(v) == s {
		return zint(v)
	}
	return zstr(s)
}

// ziplist builds the encoded list; big forces the 5-byte previous length for entry i.
func encZiplist(ents []zent, big func(i int) bool) string {
	var body strings.Builder
	prev, tail := 0, 10
	for i, e := range ents {
		tail = 10 + body.Len()
		n := body.Len()
		if prev < 254 && (big == nil || !big(i)) {
			body.WriteByte(byte(prev))
		} else {
			body.WriteString("\xfe" + le(uint64(prev), 4))
		}
		body.WriteString(e.raw)
		prev = body.Len() - n
	}
	cnt := len(ents)
	if cnt > 65535 {
		cnt = 65535
	}
	return le(uint64(10+body.Len()+1), 4) + le(uint64(tail), 4) + le(uint64(cnt), 2) + body.String() + "\xff"
}

func zautos(l ...string) string {
	var e []zent
	for _, s := range l {
		e = append(e, zauto(s))
	}
	return encZiplist(e, nil)
}

func ztexts(l []zent) []string {
	var o []string
	for _, e := range l {
		o = append(o, e.text)
	}
	return o
}

// ---- intset ----

func encIntset(w int, l []int64) string {
	s := le(uint64(w), 4) + le(uint64(len(l)), 4)
	for _, v := range l {
		s += le(uint64(v), w)
	}
	return s
}

// ---- zipmap ----

type zpair struct {
	f, v string
	free int
}

func zmLen(n int) string {
	if n < 254 {
		return string([]byte{byte(n)})
	}
	return "\xfe" + le(uint64(n), 4)
}

func encZipmap(ps []zpair) string {
	n := len(ps)
	if n > 254 {
		n = 254
	}
	var b strings.Builder
	b.WriteByte(byte(n))
	for _, p := range ps {
		b.WriteString(zmLen(len(p.f)) + p.f + zmLen(len(p.v)) + string([]byte{byte(p.free)}) + p.v)
		b.WriteString(strings.Repeat("\x07", p.free))
	}
	b.WriteString("\xff")
	return b.String()
}

// ---- doubles ----

func encDouble(f float64) string {
	switch {
	case math.IsNaN(f):
		return "\xfd"
	case math.IsInf(f, 1):
		return "\xfe"
	case math.IsInf(f, -1):
		return "\xff"
	}
	s := strconv.FormatFloat(f, 'g', 17, 64)
	return string([]byte{byte(len(s))}) + s
}

func encBinDouble(f float64) string { return le(math.Float64bits(f), 8) }

func sameFloat(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || math.IsNaN(a) && math.IsNaN(b) || a == 0 && b == 0
}

// ---- snapshots ----

// obj is one key of the master: how it is written and what it is.
type obj struct {
	name string // description
	typ  byte
	key  string
	kenc string // encoded key
	val  string // encoded value
	want rval
	exp  int64  // absolute milliseconds, 0 none
	expS bool   // written as seconds
	pre  string // idle or frequency marks
}

type rval struct {
	kind string // string, list, set, zset, hash
	s    string
	l    []string
	set  map[string]bool
	z    map[string]float64
	h    map[string]string
}

func (o obj) enc() string {
	s := ""
	if o.exp != 0 {
		if o.expS {
			s += "\xfd" + le(uint64(o.exp/1000), 4)
		} else {
			s += "\xfc" + le(uint64(o.exp), 8)
		}
	}
	return s + o.pre + string([]byte{o.typ}) + o.kenc + o.val
}

func (o obj) String() string {
	s := fmt.Sprintf("%s key %q", o.name, shorten(o.key, 20))
	if o.exp != 0 {
		s += fmt.Sprintf(" expiring at %d", o.exp)
	}
	if o.pre != "" {
		s += " marked"
	}
	return s
}

func shorten(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

const rdbMagic = "REDIS0009"
const rdbTrailer = "\xff\x00\x00\x00\x00\x00\x00\x00\x00"

func aux(k, v string) string    { return "\xfa" + encStr(k) + encStr(v) }
func selDB(n uint64) string     { return "\xfe" + encLen(n) }
func resize(a, b uint64) string { return "\xfb" + encLen(a) + encLen(b) }

func stdAux() string {
	return aux("redis-ver", "5.0.7") + "\xfa" + encStr("redis-bits") + encI8(64) + "\xfa" + encStr("ctime") + encI32(1577836800) + "\xfa" + encStr("used-mem") + encI32(866688) +
		"\xfa" + encStr("aof-preamble") + encI8(0) + aux("repl-id", "0123456789012345678901234567890123456789") + "\xfa" + encStr("repl-offset") + encI8(0) + "\xfa" + encStr("repl-stream-db") + encI8(0)
}

func oString(key, v string) obj {
	return obj{name: "string " + shorten(v, 12), typ: 0, key: key, kenc: encStr(key), val: encStr(v), want: rval{kind: "string", s: v}}
}

// strForms are the encodings Redis may use for a string.
func strForms(s string) (l []string) {
	l = append(l, encStr(s))
	if v, err := strconv.ParseInt(s, 10, 64); err == nil && dec(v) == s {
		if v >= -128 && v <= 127 {
			l = append(l, encI8(v))
		} else if v >= -32768 && v <= 32767 {
			l = append(l, encI16(v))
		} else if v >= -2147483648 && v <= 2147483647 {
			l = append(l, encI32(v))
		}
	}
	if c := lzfRef(s); len(s) > 20 && len(c) <= len(s)-4 {
		l = append(l, encLzf(c, s))
	}
	return
}

func encStrs(l []string) string {
	s := encLen(uint64(len(l)))
	for _, x := range l {
		f := strForms(x)
		s += f[len(f)-1]
	}
	return s
}

func setOf(l []string) map[string]bool {
	m := map[string]bool{}
	for _, x := range l {
		m[x] = true
	}
	return m
}

// objForms: the same logical value in every encoding the loader supports.
func listForms(key string, l []string) []obj {
	w := rval{kind: "list", l: l}
	mk := func(n string, t byte, v string) obj {
		return obj{name: n + " of " + strconv.Itoa(len(l)), typ: t, key: key, kenc: encStr(key), val: v, want: w}
	}
	out := []obj{mk("list", 1, encStrs(l)), mk("list-ziplist", 10, encStr(zautos(l...)))}
	// quicklist with one node, one entry per node, and two nodes
	out = append(out, mk("quicklist-1", 14, encLen(1)+encStr(zautos(l...))))
	s := encLen(uint64(len(l)))
	for _, x := range l {
		s += encStr(zautos(x))
	}
	out = append(out, mk("quicklist-n", 14, s))
	if len(l) > 2 {
		h := len(l) / 2
		a := zautos(l[:h]...)
		out = append(out, mk("quicklist-2", 14, encLen(2)+encStr(a)+encStr(zautos(l[h:]...))))
		if c := lzfRef(a); len(c) < len(a)-4 {
			out = append(out, mk("quicklist-lzf", 14, encLen(2)+encLzf(c, a)+encStr(zautos(l[h:]...))))
		}
	}
	return out
}

func setForms(key string, l []string) []obj {
	w := rval{kind: "set", set: setOf(l)}
	mk := func(n string, t byte, v string) obj {
		return obj{name: n + " of " + strconv.Itoa(len(l)), typ: t, key: key, kenc: encStr(key), val: v, want: w}
	}
	out := []obj{mk("set", 2, encStrs(l))}
	var is []int64
	width := 2
	for _, x := range l {
		v, err := strconv.ParseInt(x, 10, 64)
		if err != nil || dec(v) != x {
			return out
		}
		is = append(is, v)
		if v < -32768 || v > 32767 {
			if width < 4 {
				width = 4
			}
		}
		if v < -2147483648 || v > 2147483647 {
			width = 8
		}
	}
	for i := range is {
		for j := i + 1; j < len(is); j++ {
			if is[j] < is[i] {
				is[i], is[j] = is[j], is[i]
			}
		}
	}
	return append(out, mk(fmt.Sprintf("intset%d", width*8), 11, encStr(encIntset(width, is))))
}

type zm struct {
	m string
	f float64
}

func zsetForms(key string, l []zm) []obj {
	w := rval{kind: "zset", z: map[string]float64{}}
	var zl []string
	a, b := encLen(uint64(len(l))), encLen(uint64(len(l)))
	for _, x := range l {
		w.z[x.m] = x.f
		f := strForms(x.m)
		a += f[len(f)-1] + encDouble(x.f)
		b += f[len(f)-1] + encBinDouble(x.f)
		zl = append(zl, x.m, scoreText(x.f))
	}
	mk := func(n string, t byte, v string) obj {
		return obj{name: n + " of " + strconv.Itoa(len(l)), typ: t, key: key, kenc: encStr(key), val: v, want: w}
	}
	return []obj{mk("zset", 3, a), mk("zset2", 5, b), mk("zset-ziplist", 12, encStr(zautos(zl...)))}
}

func scoreText(f float64) string {
	switch {
	case math.IsInf(f, 1):
		return "inf"
	case math.IsInf(f, -1):
		return "-inf"
	case f == math.Trunc(f) && math.Abs(f) < 1e15:
		return dec(int64(f))
	}
	return strconv.FormatFloat(f, 'g', 17, 64)
}

func hashForms(key string, l []zpair) []obj {
	w := rval{kind: "hash", h: map[string]string{}}
	var zl, flat []string
	for _, p := range l {
		w.h[p.f] = p.v
		zl = append(zl, p.f, p.v)
	}
	flat = append(flat, zl...)
	s := encStrs(flat)
	s = encLen(uint64(len(l))) + s[len(encLen(uint64(len(flat)))):]
	mk := func(n string, t byte, v string) obj {
		return obj{name: n + " of " + strconv.Itoa(len(l)), typ: t, key: key, kenc: encStr(key), val: v, want: w}
	}
	return []obj{mk("hash", 4, s), mk("hash-zipmap", 9, encStr(encZipmap(l))), mk("hash-ziplist", 13, encStr(zautos(zl...)))}
}
