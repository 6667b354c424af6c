package main

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/liujiangwei/xxcache/redis"
	"github.com/liujiangwei/xxcache/redis/intset"
	"github.com/liujiangwei/xxcache/redis/lzf"
	"github.com/liujiangwei/xxcache/redis/rdb"
	"github.com/liujiangwei/xxcache/redis/ziplist"
	"github.com/liujiangwei/xxcache/redis/zipmap"
	"github.com/liujiangwei/xxcache/zzverif/vs"
)

// decodeCase reads one item under a delivery with the given buffer size, then checks that exactly the
// item was consumed.
func decodeCase(c *Ctx, what, enc string, d delivery, bufsize int, read func(*bufio.Reader) (bool, string)) bool {
	c.R.Evals++
	c.R.Transitions++
	tail := "\x5a\xa5tail"
	cc := &chunkConn{data: []byte(enc + tail), cuts: d.cuts, withEnd: d.withEnd, zero: d.zero, end: d.end}
	bad := ""
	p := try(func() {
		r := bufio.NewReaderSize(cc, bufsize)
		ok, msg := read(r)
		if !ok {
			bad = msg
			return
		}
		rest, _ := io.ReadAll(r)
		if string(rest) != tail {
			bad = fmt.Sprintf("%d bytes are left instead of %d", len(rest), len(tail))
		}
	})
	if p != "" {
		bad = "panic: " + p
	}
	if bad != "" {
		return c.Violate(what+" "+short(enc), fmt.Sprintf("%s encoded as %s, %s, buffer %d: %s", what, short(enc), d, bufsize, bad),
			map[string]string{"item": what, "encoded": short(enc), "delivery": d.String()})
	}
	return false
}

// cutFails: reading a prefix of the item reports an error.
func cutFails(c *Ctx, what, enc string, n int, read func(*bufio.Reader) error) bool {
	c.R.Evals++
	c.R.Transitions++
	var err error
	p := try(func() { err = read(bufio.NewReader(&chunkConn{data: []byte(enc[:n]), end: io.EOF})) })
	if p != "" || err == nil {
		return c.Violate("cut "+what+" "+short(enc), fmt.Sprintf("%s %s cut off after %d bytes: error %v %s", what, short(enc), n, err, p), what)
	}
	return false
}

func modes(c *Ctx, t bool, n int, f func(d delivery, bufsize int) bool) bool {
	return !deliveries(n, pick(deep(), 14, 11), pick(deep(), 100, 40), nearOf(n), func(d delivery) bool {
		if f(d, 4096) {
			return false
		}
		return !f(d, 16)
	})
}

func nearOf(n int) (l []int) {
	for _, k := range []int{1, 2, 3, 4, 5, 6, 9, 10, 15, 16, 17, 31, 32, 4094, 4095, 4096, 4097, 4098, 8191, 8192, n - 3, n - 2, n - 1} {
		if k > 0 && k < n {
			l = append(l, k)
		}
	}
	sortInts(l)
	return l
}

func c25tasks(t bool) (tasks []Task) {
	lenRead := func(want uint64) func(r *bufio.Reader) (bool, string) {
		return func(r *bufio.Reader) (bool, string) {
			n, enc, err := rdb.LoadLen(r)
			if err != nil || enc || n != want {
				return false, fmt.Sprintf("length %d is read as %d (special %v, error %v)", want, n, enc, err)
			}
			return true, ""
		}
	}
	lenErr := func(r *bufio.Reader) error { _, _, err := rdb.LoadLen(r); return err }
	lens := func(c *Ctx, enc string, want uint64, all bool) bool {
		c.R.States++
		c.R.Distinct++
		what := "length " + strconv.FormatUint(want, 10)
		c.Case(func() string { return what })
		if !all {
			return decodeCase(c, what, enc, delivery{end: io.EOF}, 4096, lenRead(want)) || decodeCase(c, what, enc, delivery{cuts: []int{1}, end: io.EOF}, 16, lenRead(want))
		}
		c.R.Traces++
		if modes(c, t, len(enc), func(d delivery, b int) bool { return decodeCase(c, what, enc, d, b, lenRead(want)) }) {
			return true
		}
		for n := 0; n < len(enc); n++ {
			if cutFails(c, what, enc, n, lenErr) {
				return true
			}
		}
		return false
	}
	tasks = append(tasks, Task{"lengths", func(c *Ctx) {
		for n := uint64(0); n < 64; n++ {
			if lens(c, encLen6(n), n, true) {
				return
			}
		}
		for n := uint64(0); n < 16384; n++ {
			if lens(c, encLen14(n), n, n%251 == 0 || n < 4 || n > 16380) {
				return
			}
		}
		for _, n := range wideValues() {
			if n <= math.MaxUint32 && lens(c, encLen32(n), n, true) {
				return
			}
			if lens(c, encLen64(n), n, true) {
				return
			}
			if c.Stop() {
				return
			}
		}
		for i := 0; i < 4; i++ {
			sh := uint(8 * i)
			for b := uint64(0); b < 256; b++ {
				if lens(c, encLen32(b<<sh), b<<sh, false) || lens(c, encLen64(b<<sh<<32), b<<sh<<32, false) || lens(c, encLen64(b<<sh), b<<sh, false) {
					return
				}
			}
		}
		c.Sample(map[string]interface{}{"encoded": fmt.Sprintf("%q", encLen32(0x01020304)), "length": 0x01020304})
	}})
	strRead := func(want string) func(r *bufio.Reader) (bool, string) {
		return func(r *bufio.Reader) (bool, string) {
			s, err := rdb.LoadString(r)
			if err != nil || s != want {
				return false, fmt.Sprintf("%s is read as %s (error %v)", short(want), short(s), err)
			}
			return true, ""
		}
	}
	strErr := func(r *bufio.Reader) error { _, err := rdb.LoadString(r); return err }
	str := func(c *Ctx, enc, want string, all bool) bool {
		c.R.States++
		c.R.Distinct++
		what := "string " + short(want)
		c.Case(func() string { return what })
		if !all {
			return decodeCase(c, what, enc, delivery{end: io.EOF}, 4096, strRead(want)) || decodeCase(c, what, enc, delivery{cuts: []int{2}, end: io.EOF}, 16, strRead(want))
		}
		c.R.Traces++
		if modes(c, t, len(enc), func(d delivery, b int) bool { return decodeCase(c, what, enc, d, b, strRead(want)) }) {
			return true
		}
		for n := 0; n < len(enc); n++ {
			if n > 20 && n < len(enc)-5 && n%997 != 0 {
				continue
			}
			if cutFails(c, what, enc, n, strErr) {
				return true
			}
		}
		return false
	}
	tasks = append(tasks, Task{"strings-raw", func(c *Ctx) {
		ns := []int{16382, 16383, 16384, 16385, 65535, 65536, 65537, 1 << 20, 1<<24 + 1}
		for n := 0; n < 300; n++ {
			ns = append(ns, n)
		}
		for n := 4070; n < 4110; n++ {
			ns = append(ns, n)
		}
		for n := 8180; n < 8200; n++ {
			ns = append(ns, n)
		}
		for _, n := range ns {
			if c.Stop() {
				return
			}
			s := filler(n)
			u := uint64(n)
			forms := []string{encLen32(u) + s, encLen64(u) + s}
			if n < 16384 {
				forms = append(forms, encLen14(u)+s)
			}
			if n < 64 {
				forms = append(forms, encLen6(u)+s)
			}
			for _, f := range forms {
				if str(c, f, s, n <= 40 || n > 4000 && n < 70000) {
					return
				}
			}
		}
		{
			n := 1<<26 + 5
			s := filler(n)
			if str(c, encLen32(uint64(n))+s, s, false) {
				return
			}
		}
		c.Sample("raw strings of 0..299, 4070..4109, 8180..8199, 16382.. bytes in every length form")
	}})
	tasks = append(tasks, Task{"strings-int", func(c *Ctx) {
		for v := int64(-128); v < 128; v++ {
			if str(c, encI8(v), dec(v), true) {
				return
			}
		}
		for v := int64(-32768); v < 32768; v++ {
			if str(c, encI16(v), dec(v), v%1024 < 2 || v < -32766 || v > 32765) {
				return
			}
			if v%1000 == 0 && c.Stop() {
				return
			}
		}
		for _, u := range wideValues() {
			v := int64(int32(uint32(u)))
			if str(c, encI32(v), dec(v), true) || str(c, encI32(-v), dec(int64(int32(-v))), true) {
				return
			}
		}
		for i := uint(0); i < 32; i += 8 {
			for b := uint32(0); b < 256; b++ {
				v := int64(int32(b << i))
				if str(c, encI32(v), dec(v), false) {
					return
				}
			}
		}
		c.Sample(map[string]string{"encoded": fmt.Sprintf("%q", encI16(-2)), "string": "-2"})
	}})
	tasks = append(tasks, Task{"strings-lzf", func(c *Ctx) {
		n := 0
		lzfStreams(pick(deep(), 5, 4), func(enc string) bool {
			want, ok := lzfDecode(enc)
			if !ok || want == "" {
				return true
			}
			n++
			if n%64 == 0 && c.Stop() {
				return false
			}
			return !str(c, encLzf(enc, want), want, n%200 == 0)
		})
		for _, s := range compressible() {
			cs := lzfRef(s)
			if back, ok := lzfDecode(cs); !ok || back != s {
				panic("reference LZF")
			}
			if cs != "" && str(c, encLzf(cs, s), s, len(s) < 5000) {
				return
			}
		}
		c.Count("lzf_streams", n)
		c.Sample(fmt.Sprintf("%d LZF streams", n))
	}})
	tasks = append(tasks, Task{"doubles", func(c *Ctx) {
		fl := floats()
		for _, f := range fl {
			f := f
			c.R.States++
			c.R.Distinct++
			c.R.Traces++
			for i, enc := range []string{encDouble(f), encBinDouble(f)} {
				i, enc := i, enc
				what := fmt.Sprintf("double %v", f)
				c.Case(func() string { return what })
				rd := func(r *bufio.Reader) (float64, error) {
					if i == 0 {
						return rdb.LoadDouble(r)
					}
					return rdb.LoadBinaryDouble(r)
				}
				if modes(c, t, len(enc), func(d delivery, b int) bool {
					return decodeCase(c, what, enc, d, b, func(r *bufio.Reader) (bool, string) {
						g, err := rd(r)
						if err != nil || !sameFloat(f, g) {
							return false, fmt.Sprintf("read as %v (error %v)", g, err)
						}
						return true, ""
					})
				}) {
					return
				}
				for n := 0; n < len(enc); n++ {
					if cutFails(c, what, enc, n, func(r *bufio.Reader) error { _, err := rd(r); return err }) {
						return
					}
				}
			}
			if c.Stop() {
				return
			}
		}
		// every exponent, every byte in every position
		for e := uint64(0); e < 2048; e++ {
			for _, m := range []uint64{0, 1, 0x123456789abcd, 0xfffffffffffff} {
				for sg := uint64(0); sg < 2; sg++ {
					f := math.Float64frombits(sg<<63 | e<<52 | m)
					c.R.States++
					if decodeCase(c, fmt.Sprintf("double %v", f), encBinDouble(f), delivery{end: io.EOF}, 4096, func(r *bufio.Reader) (bool, string) {
						g, err := rdb.LoadBinaryDouble(r)
						return err == nil && sameFloat(f, g), fmt.Sprintf("read as %v %v", g, err)
					}) {
						return
					}
				}
			}
		}
		c.Sample("text and binary doubles")
	}})
	tasks = append(tasks, Task{"opcodes", func(c *Ctx) {
		for b := 0; b < 256; b++ {
			c.R.States++
			if decodeCase(c, "opcode", string([]byte{byte(b)}), delivery{end: io.EOF}, 16, func(r *bufio.Reader) (bool, string) {
				o, err := rdb.LoadOpCode(r)
				return err == nil && int(o) == b, fmt.Sprintf("opcode %d is read as %d %v", b, o, err)
			}) {
				return
			}
		}
		c.Sample("256 opcodes")
	}})
	return
}

func wideValues() (l []uint64) {
	seen := map[uint64]bool{}
	add := func(v uint64) {
		if !seen[v] {
			seen[v] = true
			l = append(l, v)
		}
	}
	for i := uint(0); i < 64; i++ {
		add(1 << i)
		add(1<<i - 1)
		add(1<<i + 1)
	}
	for _, v := range []uint64{0, 0x01020304, 0xfedcba98, 0x0102030405060708, 0xfffefdfcfbfaf9f8, math.MaxUint32, math.MaxUint64, 0x80000000, 0x7fffffff, 16384, 65536} {
		add(v)
	}
	return
}

func floats() []float64 {
	l := []float64{0, math.Copysign(0, -1), 1, -1, 0.1, -0.1, 1.5, 3.14159265358979, 1e10, 1e21, 1e100, 1e-10, 1e-300, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 12345678901234567, 9007199254740993, -2.5e-7, 123456.789, 100, -17, 65536, 1.0 / 3}
	return l
}

// lzfStreams enumerates streams of up to depth literal runs and back references.
func lzfStreams(depth int, f func(string) bool) {
	type tok struct {
		lit string
		n   int
		off int
	}
	toks := []tok{{lit: "a"}, {lit: "bc"}, {lit: "\x00\xff\x20"}, {lit: letters(31)}, {lit: filler(32)}}
	for _, n := range []int{3, 4, 7, 8, 9, 10, 263, 264} {
		for _, o := range []int{0, 1, 2, 30, 31, 255, 256, 300} {
			toks = append(toks, tok{n: n, off: o})
		}
	}
	var rec func(enc []byte, out, d int) bool
	rec = func(enc []byte, out, d int) bool {
		if d > 0 && !f(string(enc)) {
			return false
		}
		if d == depth {
			return true
		}
		for _, k := range toks {
			if k.lit != "" {
				if !rec(append(enc[:len(enc):len(enc)], lzfLit(k.lit)...), out+len(k.lit), d+1) {
					return false
				}
			} else if k.off < out {
				if !rec(append(enc[:len(enc):len(enc)], lzfBack(k.n, k.off)...), out+k.n, d+1) {
					return false
				}
			}
		}
		return true
	}
	rec(nil, 0, 0)
	// the farthest references
	far := ""
	for len(far) < 8192 {
		far += string(lzfLit(filler(32)))[0:1] + filler(32)
		if out, _ := lzfDecode(far); len(out) >= 8192 {
			break
		}
	}
	for _, o := range []int{8191, 8190, 4096, 4095, 511, 512} {
		for _, n := range []int{3, 8, 9, 264} {
			if !f(far + string(lzfBack(n, o)) + string(lzfLit("z"))) {
				return
			}
		}
	}
}

func compressible() (l []string) {
	for _, n := range []int{4, 10, 21, 33, 64, 100, 264, 265, 266, 300, 1000, 4100, 10000, 70000} {
		l = append(l, strings.Repeat("a", n), strings.Repeat("ab", n/2), strings.Repeat(letters(17), n/17+1), filler(n/4)+strings.Repeat("x", n)+filler(n/4), filler(40)+letters(n)+filler(40))
	}
	f := filler(9000)
	l = append(l, f+f, f[:8192]+f[:100], f[:8193]+f[:100], f[:8191]+f[:300])
	return
}

// ---- C26 ----

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func shortList(l []string) string {
	var o []string
	for i, s := range l {
		if i == 8 {
			o = append(o, fmt.Sprintf("... %d in all", len(l)))
			break
		}
		o = append(o, short(s))
	}
	return "[" + strings.Join(o, " ") + "]"
}

func c26tasks(t bool) (tasks []Task) {
	zl := func(c *Ctx, ents []zent, big func(int) bool) bool {
		c.R.Evals++
		c.R.States++
		c.R.Transitions += len(ents)
		want := ztexts(ents)
		enc := encZiplist(ents, big)
		c.Case(func() string { return "ziplist " + shortList(want) })
		var got []string
		var err error
		p := try(func() { got, err = ziplist.Load(enc) })
		if p != "" || err != nil || !sameList(got, want) {
			return c.Violate("ziplist "+shortList(want)+short(enc), fmt.Sprintf("ziplist %s (%s) decodes to %s, error %v %s", shortList(want), short(enc), shortList(got), err, p), short(enc))
		}
		return false
	}
	alpha := []zent{zs6(""), zs6("a"), zs6("\xff"), zs6("\xfe\xff"), zs6(filler(63)), zs6("12"), zs14("a"), zs14(filler(64)), zs14(filler(250)), zs14(filler(251)), zs14(filler(300)), zs14(filler(16383)), zs32("b"), zs32(filler(255)), zs32(filler(16384)), zs32(filler(70000)),
		zimm(0), zimm(12), zimm(5), zi8(-1), zi8(-128), zi8(127), zi16(-1), zi16(256), zi16(-32768), zi24(-1), zi24(8388607), zi24(-8388608), zi24(65536), zi32(-1), zi32(2147483647), zi32(-2147483648), zi64(-1), zi64(math.MaxInt64), zi64(math.MinInt64), zi64(4294967296)}
	tasks = append(tasks, Task{"ziplist-sequences", func(c *Ctx) {
		if zl(c, nil, nil) {
			return
		}
		for i, a := range alpha {
			if c.Stop() {
				return
			}
			for m := 0; m < 2; m++ {
				if zl(c, []zent{a}, func(int) bool { return m == 1 }) {
					return
				}
			}
			for j, b := range alpha {
				for m := 0; m < 4; m++ {
					m := m
					c.R.Distinct++
					c.R.Traces++
					if zl(c, []zent{a, b}, func(k int) bool { return m&(1<<uint(k)) != 0 }) {
						return
					}
				}
				if t || i%3 == 0 && j%2 == 0 {
					for _, x := range alpha {
						for _, m := range []int{0, 7, 2, 4} {
							m := m
							c.R.Distinct++
							c.R.Traces++
							if zl(c, []zent{a, b, x}, func(k int) bool { return m&(1<<uint(k)) != 0 }) {
								return
							}
						}
					}
				}
			}
		}
		c.Sample(shortList(ztexts(alpha[1:4])))
	}})
	tasks = append(tasks, Task{"ziplist-integers", func(c *Ctx) {
		one := func(e zent) bool { return zl(c, []zent{zs6("x"), e, zs6("y")}, nil) }
		for v := int64(0); v <= 12; v++ {
			if one(zimm(v)) {
				return
			}
		}
		for v := int64(-128); v < 128; v++ {
			if one(zi8(v)) {
				return
			}
		}
		for v := int64(-32768); v < 32768; v++ {
			if one(zi16(v)) {
				return
			}
		}
		for _, u := range wideValues() {
			for _, v := range []int64{int64(u), -int64(u)} {
				if one(zi64(v)) || one(zi32(int64(int32(v)))) || one(zi24(v<<40>>40)) {
					return
				}
			}
		}
		for v := int64(-8388608); v < 8388608; v += pick64(deep(), 17, 257) {
			if one(zi24(v)) {
				return
			}
		}
		c.Sample("all 8 and 16 bit integers, boundary values of the wider ones")
	}})
	tasks = append(tasks, Task{"ziplist-lengths", func(c *Ctx) {
		for n := 0; n < 600; n++ {
			if c.Stop() {
				return
			}
			s := filler(n)
			forms := []zent{zs14(s), zs32(s)}
			if n < 64 {
				forms = append(forms, zs6(s))
			}
			for _, e := range forms {
				c.R.Traces++
				if zl(c, []zent{e, zs6("n"), e, zi16(300)}, nil) {
					return
				}
			}
		}
		for _, n := range []int{1023, 1024, 4095, 4096, 8191, 8192, 16381, 16382, 16383, 16384, 65535, 65536, 65791, 65792, 1 << 20, 1<<24 + 5} {
			s := filler(n)
			l := []zent{zs32(s)}
			if n < 16384 {
				l = append(l, zs14(s))
			}
			for _, e := range l {
				if zl(c, []zent{zi8(3), e, zs6("n")}, nil) {
					return
				}
			}
		}
		for _, cnt := range []int{10, 100, 253, 254, 255, 256, 1000, 65533, 65534, 65535, 65536, 70000} {
			var l []zent
			for i := 0; i < cnt; i++ {
				l = append(l, zint(int64(i*37-1000)))
			}
			if zl(c, l, nil) {
				return
			}
		}
		c.Sample("string lengths 0..599 and boundaries, up to 70000 entries")
	}})
	is := func(c *Ctx, w int, l []int64) bool {
		c.R.Evals++
		c.R.States++
		c.R.Distinct++
		c.R.Transitions += len(l)
		c.Case(func() string { return fmt.Sprintf("intset%d of %d", w*8, len(l)) })
		var got []int64
		var err error
		p := try(func() { got, err = intset.Load(encIntset(w, l)) })
		ok := p == "" && err == nil && len(got) == len(l)
		for i := range l {
			ok = ok && got[i] == l[i]
		}
		if !ok {
			if len(l) > 8 {
				l, got = l[:8], nil
			}
			return c.Violate(fmt.Sprintf("intset%d %v", w*8, l), fmt.Sprintf("a %d bit intset of %v decodes to %v, error %v %s", w*8, l, got, err, p), l)
		}
		return false
	}
	tasks = append(tasks, Task{"intset", func(c *Ctx) {
		for v := int64(-32768); v < 32768; v++ {
			if is(c, 2, []int64{v}) {
				return
			}
		}
		for _, w := range []int{2, 4, 8} {
			var vals []int64
			seen := map[int64]bool{}
			for _, u := range wideValues() {
				for _, v := range []int64{int64(u), -int64(u)} {
					v = v << uint(64-8*w) >> uint(64-8*w)
					if !seen[v] {
						seen[v] = true
						vals = append(vals, v)
					}
				}
			}
			is(c, w, nil)
			for _, a := range vals {
				if c.Stop() || is(c, w, []int64{a}) {
					return
				}
				for _, b := range vals {
					c.R.Traces++
					if is(c, w, []int64{a, b}) {
						return
					}
				}
			}
			for _, n := range []int{3, 10, 511, 512, 5000, 65535, 65536, 70000} {
				var l []int64
				step := int64(7)
				if n > 5000 {
					step = 1
				}
				if n > 65536 && w == 2 {
					continue // more than there are 16 bit members
				}
				for i := 0; i < n; i++ {
					l = append(l, int64(i-n/2)*step)
				}
				if is(c, w, l) {
					return
				}
			}
		}
		c.Sample("all 16 bit members, pairs of boundary members in every width")
	}})
	zmc := func(c *Ctx, ps []zpair) bool {
		c.R.Evals++
		c.R.States++
		c.R.Distinct++
		c.R.Transitions += len(ps)
		want := map[string]string{}
		desc := ""
		for _, p := range ps {
			want[p.f] = p.v
			if len(desc) < 200 {
				desc += fmt.Sprintf("%d/%d/%d ", len(p.f), len(p.v), p.free)
			}
		}
		c.Case(func() string { return "zipmap " + desc })
		var got map[string]string
		var err error
		p := try(func() { got, err = zipmap.Load(encZipmap(ps)) })
		ok := p == "" && err == nil && len(got) == len(want)
		for f, v := range want {
			g, has := got[f]
			ok = ok && has && g == v
		}
		if !ok {
			return c.Violate("zipmap "+desc, fmt.Sprintf("a zipmap with %d pairs of lengths (field/value/free) %sdecodes to %d pairs, error %v %s: %s", len(ps), desc, len(got), err, p, short(encZipmap(ps))), desc)
		}
		return false
	}
	tasks = append(tasks, Task{"zipmap", func(c *Ctx) {
		zmc(c, nil)
		ns := []int{0, 1, 2, 3, 63, 250, 251, 252, 253, 254, 255, 256, 257, 300, 1000}
		fr := []int{0, 1, 2, 3, 4, 5, 252}
		for _, a := range ns {
			for _, b := range ns {
				for _, f := range fr {
					if c.Stop() {
						return
					}
					p := zpair{letters(a), filler(b), f}
					if zmc(c, []zpair{p}) || zmc(c, []zpair{p, {"q", "v", 0}}) || zmc(c, []zpair{{"q", "vv", f}, p, {"zz", "", 0}}) {
						return
					}
				}
			}
		}
		small := []zpair{{"", "", 0}, {"a", "", 1}, {"b", "\xff", 0}, {"\xff", "c\xfe", 2}, {"\xfe\x00", "0", 4}, {filler(254), "x", 0}, {"y", filler(254), 3}, {"\x00", "\x00\x00", 0}}
		d := pick(deep(), 7, 5)
		var rec func(l []zpair, used int) bool
		rec = func(l []zpair, used int) bool {
			c.R.Traces++
			if zmc(c, l) {
				return true
			}
			if len(l) == d {
				return false
			}
			for i, p := range small {
				if used&(1<<uint(i)) == 0 {
					if rec(append(l[:len(l):len(l)], p), used|1<<uint(i)) {
						return true
					}
				}
			}
			return false
		}
		if rec(nil, 0) {
			return
		}
		for _, n := range []int{10, 64, 252, 253, 254, 255, 256, 300, 1000} {
			var l []zpair
			for i := 0; i < n; i++ {
				l = append(l, zpair{"f" + strconv.Itoa(i), "v" + strconv.Itoa(i*i), i % 5})
			}
			if zmc(c, l) {
				return
			}
		}
		if zmc(c, []zpair{{filler(70000), filler(66000), 3}, {"e", "f", 0}}) {
			return
		}
		c.Sample("pairs of lengths 0..1000 with 0..252 free bytes, all orders of up to 4 of 8 pairs, up to 1000 pairs")
	}})
	return
}

func pick64(t bool, a, b int64) int64 {
	if t {
		return a
	}
	return b
}

// ---- reference store executing the emitted commands ----

type rentry struct {
	v   rval
	exp int64
}
type refStore map[int]map[string]*rentry

func (st refStore) exec(db int, args []string) string {
	if len(args) == 0 {
		return "empty command"
	}
	name := strings.ToLower(args[0])
	if name == "select" || name == "multi" || name == "exec" || name == "ping" {
		return ""
	}
	if len(args) < 2 {
		return "no key in " + name
	}
	d := st[db]
	if d == nil {
		d = map[string]*rentry{}
		st[db] = d
	}
	key, rest := args[1], args[2:]
	e := d[key]
	typed := func(kind string) bool {
		if e == nil {
			e = &rentry{v: rval{kind: kind}}
			switch kind {
			case "set":
				e.v.set = map[string]bool{}
			case "zset":
				e.v.z = map[string]float64{}
			case "hash":
				e.v.h = map[string]string{}
			}
			d[key] = e
		}
		return e.v.kind == kind
	}
	bad := fmt.Sprintf("%s with %d arguments", name, len(args)-1)
	switch name {
	case "set":
		if len(rest) != 1 {
			return bad
		}
		d[key] = &rentry{v: rval{kind: "string", s: rest[0]}}
	case "psetex", "setex":
		if len(rest) != 2 {
			return bad
		}
		n, err := strconv.ParseInt(rest[0], 10, 64)
		if err != nil || n <= 0 {
			return name + " lifetime " + rest[0]
		}
		if name == "setex" {
			n *= 1000
		}
		d[key] = &rentry{v: rval{kind: "string", s: rest[1]}, exp: vs.Epoch.UnixNano()/1e6 + n}
	case "rpush", "lpush":
		if len(rest) == 0 {
			return bad
		}
		if !typed("list") {
			return "WRONGTYPE " + name
		}
		for _, x := range rest {
			if name == "rpush" {
				e.v.l = append(e.v.l, x)
			} else {
				e.v.l = append([]string{x}, e.v.l...)
			}
		}
	case "sadd":
		if len(rest) == 0 {
			return bad
		}
		if !typed("set") {
			return "WRONGTYPE " + name
		}
		for _, x := range rest {
			e.v.set[x] = true
		}
	case "zadd":
		if len(rest) == 0 || len(rest)%2 != 0 {
			return bad
		}
		for i := 0; i < len(rest); i += 2 {
			if _, err := strconv.ParseFloat(rest[i], 64); err != nil {
				return fmt.Sprintf("zadd: the score %s is not a number", short(rest[i]))
			}
		}
		if !typed("zset") {
			return "WRONGTYPE " + name
		}
		for i := 0; i < len(rest); i += 2 {
			e.v.z[rest[i+1]], _ = strconv.ParseFloat(rest[i], 64)
		}
	case "hmset", "hset":
		if len(rest) == 0 || len(rest)%2 != 0 {
			return bad
		}
		if !typed("hash") {
			return "WRONGTYPE " + name
		}
		for i := 0; i < len(rest); i += 2 {
			e.v.h[rest[i]] = rest[i+1]
		}
	case "pexpireat", "expireat", "pexpire", "expire":
		if len(rest) != 1 {
			return bad
		}
		n, err := strconv.ParseInt(rest[0], 10, 64)
		if err != nil {
			return name + " " + short(rest[0])
		}
		if name == "expireat" || name == "expire" {
			n *= 1000
		}
		if name == "pexpire" || name == "expire" {
			n += vs.Epoch.UnixNano() / 1e6
		}
		if e == nil {
			return name + " of a key that was not loaded: " + short(key)
		}
		e.exp = n
	default:
		return "unexpected command " + name
	}
	return ""
}

// diff compares a stored entry with what the master held; "" if equal.
func (e *rentry) diff(w rval, exp int64) string {
	if e == nil {
		return "missing"
	}
	if e.exp != exp {
		return fmt.Sprintf("expires at %d, want %d", e.exp, exp)
	}
	v := e.v
	if v.kind != w.kind {
		return "is a " + v.kind + ", want " + w.kind
	}
	switch w.kind {
	case "string":
		if v.s != w.s {
			return fmt.Sprintf("is %s, want %s", short(v.s), short(w.s))
		}
	case "list":
		if !sameList(v.l, w.l) {
			return fmt.Sprintf("is %s, want %s", shortList(v.l), shortList(w.l))
		}
	case "set":
		if len(v.set) != len(w.set) {
			return fmt.Sprintf("has %d members, want %d", len(v.set), len(w.set))
		}
		for m := range w.set {
			if !v.set[m] {
				return "lacks member " + short(m)
			}
		}
	case "zset":
		if len(v.z) != len(w.z) {
			return fmt.Sprintf("has %d members %v, want %v", len(v.z), v.z, w.z)
		}
		for m, f := range w.z {
			g, ok := v.z[m]
			if !ok || !sameFloat(f, g) {
				return fmt.Sprintf("member %s has score %v (%v), want %v", short(m), g, ok, f)
			}
		}
	case "hash":
		if len(v.h) != len(w.h) {
			return fmt.Sprintf("has %d fields, want %d", len(v.h), len(w.h))
		}
		for f, x := range w.h {
			if g, ok := v.h[f]; !ok || g != x {
				return fmt.Sprintf("field %s is %s (%v), want %s", short(f), short(g), ok, short(x))
			}
		}
	}
	return ""
}

// loadFile runs Replication.Load on a file and returns the emitted commands.
type emitted struct {
	db   int
	args []string
}

func argsOf(m redis.Message) ([]string, bool) {
	a, ok := m.(redis.ArrayMessage)
	if !ok {
		return nil, false
	}
	var l []string
	for _, x := range a {
		l = append(l, x.String())
	}
	return l, true
}

func loadSnapshot(c *Ctx, data string) (out []emitted, err error, fail string) {
	f := filepath.Join(*fScratch, fmt.Sprintf("dump-%d.rdb", os.Getpid()))
	if e := os.WriteFile(f, []byte(data), 0600); e != nil {
		panic(e)
	}
	c.R.Evals++
	s := vs.Run(nil, false, 1<<30, func() {
		repl := &redis.Replication{RdbFile: f}
		repl.Messages = make(chan redis.ReplicationMessage, 20000)
		repl.Err = make(chan error, 1)
		err = repl.Load()
		for len(repl.Messages) > 0 {
			m := vs.Recv(repl.Messages)
			a, ok := argsOf(m.Message)
			if !ok {
				fail = "a message that is not a command"
				return
			}
			out = append(out, emitted{m.Database, a})
		}
	})
	if s.Fail != nil {
		fail = s.Fail.Kind + ": " + s.Fail.Msg
	}
	return
}

type record struct {
	db int
	o  *obj
	s  string // raw bytes when o is nil
}

// snapshot concatenates records, switching databases as needed; ends gives the position after each object.
func snapshot(head string, recs []record) (data string, ends []int) {
	var b strings.Builder
	b.WriteString(rdbMagic + head)
	cur := -1
	for _, r := range recs {
		if r.o == nil {
			b.WriteString(r.s)
			continue
		}
		if r.db != cur {
			b.WriteString(selDB(uint64(r.db)))
			if r.db%2 == 0 {
				b.WriteString(resize(uint64(len(recs)), 1))
			}
			cur = r.db
		}
		b.WriteString(r.o.enc())
		ends = append(ends, b.Len())
	}
	b.WriteString(rdbTrailer)
	return b.String(), ends
}

func recsString(recs []record) string {
	var l []string
	for _, r := range recs {
		if r.o == nil {
			l = append(l, short(r.s))
		} else {
			l = append(l, fmt.Sprintf("db%d %s", r.db, r.o))
		}
	}
	return strings.Join(l, "; ")
}

// checkLoad: a well-formed snapshot reproduces its dataset.
func checkLoad(c *Ctx, head string, recs []record) bool {
	data, _ := snapshot(head, recs)
	desc := recsString(recs)
	c.Case(func() string { return "snapshot " + desc })
	c.R.States++
	c.R.Traces++
	out, err, fail := loadSnapshot(c, data)
	c.R.Transitions += len(out)
	bad := fail
	if bad == "" && err != nil {
		bad = "error " + err.Error()
	}
	if bad == "" {
		st := refStore{}
		for _, e := range out {
			if m := st.exec(e.db, e.args); m != "" {
				bad = fmt.Sprintf("emits %s: %s", shortList(e.args), m)
				break
			}
		}
		if bad == "" {
			n := 0
			for _, r := range recs {
				if r.o == nil {
					continue
				}
				n++
				if m := st[r.db][r.o.key].diff(r.o.want, r.o.exp); m != "" {
					bad = fmt.Sprintf("key %q of database %d %s", shorten(r.o.key, 30), r.db, m)
					break
				}
			}
			have := 0
			for _, d := range st {
				have += len(d)
			}
			if bad == "" && have != n {
				bad = fmt.Sprintf("%d keys are loaded, want %d", have, n)
			}
		}
	}
	if bad != "" {
		return c.Violate("load "+desc, "snapshot {"+desc+"}: "+bad, map[string]string{"snapshot": desc, "bytes": short(data)})
	}
	return false
}

func catalogue(t bool) (l []obj) {
	add := func(o ...obj) { l = append(l, o...) }
	for _, v := range []string{"", "v", "0", "-1", "127", "-128", "128", "-129", "32767", "-32768", "40000", "-40000", "2147483647", "-2147483648", "2147483648", "007", "1.50", "\x00\xff\r\n", strings.Repeat("abc", 30), filler(63), filler(64), filler(16383), filler(16384), strings.Repeat("xy", 10000), filler(70000)} {
		for i, f := range strForms(v) {
			o := oString("s", v)
			o.val = f
			if i > 0 {
				o.name = "encoded " + o.name
			}
			add(o)
		}
	}
	lists := [][]string{{"a"}, {"a", "b"}, {"b", "a", "b"}, {"1", "-2", "300", "-70000", "5000000000", "x"}, {"", "0", "-0", "01"}, {filler(64), "t", filler(254), "u", filler(300)}, {strings.Repeat("ab", 40), strings.Repeat("ab", 40), strings.Repeat("cd", 60), "z"}, {filler(17000), "q"}}
	var many []string
	for i := 0; i < 300; i++ {
		many = append(many, "item"+strconv.Itoa(i*7%300))
	}
	lists = append(lists, many)
	for _, x := range lists {
		add(listForms("l", x)...)
	}
	sets := [][]string{{"a"}, {"a", "b", "c"}, {"1", "2"}, {"-1", "0", "1"}, {"-32768", "32767"}, {"-40000", "5"}, {"2147483647", "-2147483648"}, {"-9223372036854775808", "9223372036854775807", "-1"}, {"1", "x", ""}, {filler(100), "k"}}
	for _, x := range sets {
		add(setForms("e", x)...)
	}
	zs := [][]zm{{{"a", 1}}, {{"a", 1}, {"b", 2.5}}, {{"m", -3}, {"5", 7}, {"x", 0.1}}, {{"inf", math.Inf(1)}, {"ninf", math.Inf(-1)}, {"z", 0}}, {{"big", 1e21}, {"tiny", 1e-10}, {"neg", -1.0 / 3}, {"max", math.MaxFloat64}}, {{"1", 2}, {"2", 1}}, {{filler(70), 16777217}, {"", -1e100}, {"q", 5000000000}}}
	for _, x := range zs {
		add(zsetForms("z", x)...)
	}
	hs := [][]zpair{{{"f", "v", 0}}, {{"f", "v", 0}, {"g", "", 1}}, {{"1", "2", 0}, {"-300", "70000", 2}, {"x", "0", 0}}, {{"", "e", 0}, {"e", "", 4}}, {{filler(70), filler(300), 3}, {"k", filler(253), 0}, {"m", filler(254), 0}}}
	var hm []zpair
	for i := 0; i < 260; i++ {
		hm = append(hm, zpair{"f" + strconv.Itoa(i), "v" + strconv.Itoa(i*3), i % 4})
	}
	hs = append(hs, hm)
	for _, x := range hs {
		add(hashForms("h", x)...)
	}
	return
}

func withKey(o obj, key, kenc string) *obj {
	o.key = key
	o.kenc = kenc
	return &o
}

func withExp(o obj, ms int64, sec bool) *obj {
	o.exp = ms
	o.expS = sec
	return &o
}

const future = int64(1893456000000) + 86400000 // 2030-01-02
var expiries = []struct {
	ms  int64
	sec bool
}{{0, false}, {future, true}, {future + 123, false}, {4294967295000, true}, {2147483648000, true}, {1000, true}, {1, false}, {4102444800000, true}, {9007199254740991, false}, {4294967296, false}}

func c27tasks(t bool) (tasks []Task) {
	cat := catalogue(t)
	for k := 0; k < 4; k++ {
		k := k
		tasks = append(tasks, Task{fmt.Sprintf("values-%d", k), func(c *Ctx) {
			for i := k; i < len(cat); i += 4 {
				if c.Stop() {
					return
				}
				o := cat[i]
				c.R.Distinct++
				for _, e := range expiries {
					for _, pre := range []string{"", "\xf8" + encLen(100000), "\xf9\x05", "\xf9\xc1"} {
						x := withExp(o, e.ms, e.sec)
						x.pre = pre
						if checkLoad(c, stdAux(), []record{{0, x, ""}, {0, ptr(oString("after", "1")), ""}}) {
							return
						}
					}
				}
				for _, key := range []string{"", "0", "-5", "1000", "-70000", "3000000000", "\x00\xff", filler(63), filler(64), filler(20000), strings.Repeat("key", 20)} {
					for _, ke := range strForms(key) {
						if checkLoad(c, "", []record{{3, withKey(o, key, ke), ""}}) {
							return
						}
					}
				}
				for _, db := range []int{0, 1, 9, 15, 63, 64, 16383, 100000} {
					if checkLoad(c, aux("a", "b"), []record{{db, &o, ""}, {db + 1, withExp(o, future, true), ""}}) {
						return
					}
				}
				// no SELECTDB, no AUX at all
			}
			c.Sample(cat[k].String())
		}})
	}
	core := []obj{oString("a", "1"), oString("b", strings.Repeat("abc", 30)), listForms("c", []string{"x", "2", "y"})[0], listForms("d", []string{"x", "2", "y"})[3], setForms("e", []string{"-1", "300"})[1], setForms("f", []string{"m", "n"})[0],
		zsetForms("g", []zm{{"p", 1.5}, {"q", -2}})[1], zsetForms("h", []zm{{"p", 1.5}, {"q", math.Inf(1)}})[0], zsetForms("i", []zm{{"p", 3}})[2], hashForms("j", []zpair{{"f", "1", 2}, {"g", "x", 0}})[0], hashForms("k", []zpair{{"f", "1", 2}, {"g", "x", 0}})[1], hashForms("l", []zpair{{"f", "1", 0}})[2]}
	noise := []string{"", aux("lua", strings.Repeat("return 1;", 20)), resize(5, 300), resize(1<<33, 0), "\xfa" + encStr("x") + encI32(-5)}
	// everything else a master writes between objects
	marks := []string{aux("repl-stream-db", "3"), aux("repl-id", strings.Repeat("8", 40)), "\xfa" + encStr("repl-offset") + encI32(70000), aux("repl-offset", "12345678901"), "\xfa" + encStr("used-mem") + encI32(800000), "\xfa" + encStr("ctime") + encI32(1600000000), "\xfa" + encStr("redis-bits") + "\xc0\x40", "\xfa" + encStr("aof-preamble") + "\xc0\x00",
		aux("", ""), aux("set", "k"), "\xfa" + encLzf(lzfRef(strings.Repeat("lua", 30)), strings.Repeat("lua", 30)) + encLzf(lzfRef(strings.Repeat("return 1;", 300)), strings.Repeat("return 1;", 300)), aux(filler(20000), filler(70000)), resize(0, 0), resize(math.MaxUint32, math.MaxUint32),
		"\xf7" + encLen64(0x1234567890abcdef) + "\x02\x01\x00", "\xf7" + encLen64(1) + "\x02\x02\x00"}
	tasks = append(tasks, Task{"marks between objects", func(c *Ctx) {
		for _, n := range marks {
			for _, m := range append(marks[:len(marks):len(marks)], "") {
				for i := range core {
					for _, e := range expiries[:3] {
						if c.Stop() {
							return
						}
						c.R.Distinct++
						o := core[i]
						p := oString("plain", "p")
						if checkLoad(c, n+m, []record{{i % 2, withExp(o, e.ms, e.sec), ""}, {0, nil, n + m}, {0, ptr(p), ""}, {0, nil, m}}) {
							return
						}
					}
				}
			}
		}
		c.Sample(strconv.Itoa(len(marks)) + " auxiliary, size and module records before, between and after objects")
	}})
	tasks = append(tasks, Task{"large", func(c *Ctx) {
		for _, n := range []int{1000, 12000, 40000} {
			var l, m []string
			var z []zm
			var h []zpair
			for i := 0; i < n; i++ {
				l = append(l, "i"+strconv.Itoa(i*7919%n))
				if n < 20000 {
					m = append(m, strconv.Itoa(i*3-n))
				}
				z = append(z, zm{"m" + strconv.Itoa(i), float64(i) / 4})
				h = append(h, zpair{"f" + strconv.Itoa(i), "v" + strconv.Itoa(i), i % 3})
			}
			all := append(listForms("l", l), setForms("e", l)...)
			all = append(all, zsetForms("z", z)...)
			all = append(all, hashForms("h", h)...)
			if m != nil {
				all = append(all, setForms("n", m)...)
			}
			for i := range all {
				if c.Stop() {
					return
				}
				c.R.Distinct++
				if checkLoad(c, stdAux(), []record{{0, withExp(all[i], future, false), ""}, {0, ptr(oString("after", "1")), ""}}) {
					return
				}
			}
		}
		c.Sample("every form of a list, set, sorted set and hash of 1000, 12000 and 40000 elements")
	}})
	for k := 0; k < 4; k++ {
		k := k
		tasks = append(tasks, Task{fmt.Sprintf("sequences-%d", k), func(c *Ctx) {
			for i, a := range core {
				if i%4 != k {
					continue
				}
				for _, b := range core {
					if b.key == a.key {
						b.key = "other"
						b.kenc = encStr("other")
					}
					for _, ea := range expiries[:3] {
						for _, eb := range expiries[:3] {
							for _, n := range noise {
								for _, db := range [][2]int{{0, 0}, {0, 2}, {5, 0}} {
									if c.Stop() {
										return
									}
									c.R.Distinct++
									x, y := withExp(a, ea.ms, ea.sec), withExp(b, eb.ms, eb.sec)
									if checkLoad(c, n, []record{{db[0], x, ""}, {0, nil, n}, {db[1], y, ""}}) {
										return
									}
								}
							}
						}
					}
					for _, x := range core {
						if x.key == a.key || x.key == b.key {
							x.key, x.kenc = "third", encStr("third")
						}
						for _, p := range [][3]int{{0, 0, 0}, {0, 1, 0}, {2, 2, 7}} {
							if checkLoad(c, "", []record{{p[0], withExp(a, future, true), ""}, {p[1], ptr(b), ""}, {p[2], withExp(x, future+5, false), ""}}) {
								return
							}
						}
					}
					// the same key in two databases
					b.key, b.kenc = a.key, a.kenc
					if checkLoad(c, "", []record{{0, ptr(a), ""}, {1, ptr(b), ""}}) {
						return
					}
				}
			}
			c.Sample("pairs and triples of " + strconv.Itoa(len(core)) + " objects with noise records between")
		}})
	}
	tasks = append(tasks, Task{"alignment", func(c *Ctx) {
		// shift every object across the reader's buffer boundary
		for _, o := range core {
			n := len(o.enc()) + 12
			for sh := 4096 - n; sh < 4100; sh++ {
				if c.Stop() {
					return
				}
				c.R.Distinct++
				head := aux("pad", letters(sh-9-6-3))
				if checkLoad(c, head, []record{{0, withExp(o, future+1, false), ""}, {0, ptr(oString("after", "9")), ""}}) {
					return
				}
			}
		}
		c.Sample("12 objects at every offset around the 4096 byte boundary")
	}})
	tasks = append(tasks, Task{"marks", func(c *Ctx) {
		// every use frequency and every form of an idle time
		var pres []string
		for b := 0; b < 256; b++ {
			pres = append(pres, "\xf9"+string([]byte{byte(b)}))
		}
		for _, n := range []uint64{0, 1, 62, 63} {
			pres = append(pres, "\xf8"+encLen6(n))
		}
		for _, n := range []uint64{0, 1, 63, 64, 255, 256, 16382, 16383} {
			pres = append(pres, "\xf8"+encLen14(n))
		}
		for _, n := range []uint64{0, 64, 16384, 65536, 1<<31 - 1, 1 << 31, math.MaxUint32} {
			pres = append(pres, "\xf8"+encLen32(n), "\xf8"+encLen64(n))
		}
		for i := uint(0); i < 64; i++ {
			pres = append(pres, "\xf8"+encLen64(1<<i), "\xf8"+encLen64(0xffff<<i))
		}
		for _, pre := range pres {
			for _, o := range []obj{core[0], core[3], core[9]} {
				for _, e := range expiries[:3] {
					if c.Stop() {
						return
					}
					c.R.Distinct++
					x := withExp(o, e.ms, e.sec)
					x.pre = pre
					if checkLoad(c, "", []record{{0, ptr(oString("before", "1")), ""}, {0, x, ""}, {0, ptr(oString("after", "1")), ""}}) {
						return
					}
				}
			}
		}
		c.Sample("256 use frequencies and " + strconv.Itoa(len(pres)-256) + " idle times")
	}})
	tasks = append(tasks, Task{"many-keys", func(c *Ctx) {
		for _, n := range []int{0, 50, 1000, 3000} {
			var recs []record
			for i := 0; i < n; i++ {
				o := core[i%len(core)]
				k := fmt.Sprintf("key:%d", i)
				e := expiries[i%3]
				recs = append(recs, record{i * 5 / (n + 1), withExp(*withKey(o, k, encStr(k)), e.ms, e.sec), ""})
			}
			if checkLoad(c, stdAux(), recs) {
				return
			}
		}
		c.Sample("up to 3000 keys in 5 databases")
	}})
	return
}

func ptr(o obj) *obj { return &o }

// ---- C28 ----

// checkBroken: loading reports an error and emits commands only for the complete objects.
func checkBroken(c *Ctx, what, data string, complete []record, needErr bool) bool {
	c.R.States++
	c.R.Traces++
	out, err, fail := loadSnapshot(c, data)
	c.R.Transitions += len(out) + 1
	bad := fail
	if bad == "" && err == nil && needErr {
		bad = "loading reports success"
	}
	if bad == "" {
		st := refStore{}
		for _, e := range out {
			if m := st.exec(e.db, e.args); m != "" {
				bad = fmt.Sprintf("emits %s: %s", shortList(e.args), m)
				break
			}
		}
		left := 0
		for _, d := range st {
			left += len(d)
		}
		for _, r := range complete {
			if e := st[r.db][r.o.key]; e != nil && bad == "" {
				left--
				if m := e.diff(r.o.want, e.exp); m != "" {
					bad = fmt.Sprintf("key %q %s", r.o.key, m)
				} else if e.exp != r.o.exp {
					bad = fmt.Sprintf("key %q expires at %d, want %d", r.o.key, e.exp, r.o.exp)
				}
			}
		}
		if bad == "" && left > 0 {
			bad = "commands are emitted for an object that could not be read completely"
			for _, e := range out {
				bad += " " + shortList(e.args)
			}
		}
	}
	if bad != "" {
		return c.Violate(what+" "+short(data), what+": "+bad, map[string]string{"case": what, "bytes": short(data)})
	}
	return false
}

func c28tasks(t bool) (tasks []Task) {
	cat := catalogue(t)
	var small []obj
	for _, o := range cat {
		if len(o.enc()) <= pick(deep(), 200000, 20000) {
			small = append(small, o)
		}
	}
	for k := 0; k < 4; k++ {
		k := k
		tasks = append(tasks, Task{fmt.Sprintf("cut-%d", k), func(c *Ctx) {
			for i := k; i < len(small); i += 4 {
				c.R.Distinct++
				for _, e := range expiries[:3] {
					first := ptr(oString("first", "1"))
					recs := []record{{0, withExp(*first, future, true), ""}, {2, withExp(small[i], e.ms, e.sec), ""}, {2, ptr(oString("last", "xyz")), ""}}
					data, ends := snapshot(aux("redis-ver", "5"), recs)
					desc := recsString(recs)
					end := len(data) - len(rdbTrailer)
					for n := 0; n <= end; n++ {
						if end > 800 && n > 200 && n < end-50 && n%37 != 0 {
							continue
						}
						if c.Stop() {
							return
						}
						var complete []record
						for j, r := range recs {
							if ends[j] <= n {
								complete = append(complete, r)
							}
						}
						what := fmt.Sprintf("snapshot {%s} cut off after %d of %d bytes", desc, n, len(data))
						c.Case(func() string { return what })
						if checkBroken(c, what, data[:n], complete, true) {
							return
						}
					}
				}
			}
			c.Sample(small[k].String() + " cut at every byte")
		}})
	}
	tasks = append(tasks, Task{"signature", func(c *Ctx) {
		data, _ := snapshot(stdAux(), []record{{0, ptr(oString("a", "1")), ""}})
		for i := 0; i < 5; i++ {
			for b := 0; b < 256; b++ {
				if data[i] == byte(b) {
					continue
				}
				x := []byte(data)
				x[i] = byte(b)
				what := fmt.Sprintf("signature %q", x[:9])
				c.Case(func() string { return what })
				c.R.Distinct++
				if checkBroken(c, what, string(x), nil, true) {
					return
				}
			}
		}
		for _, h := range []string{"", "REDIS", "redis0009", "RDB", "\x00\x00\x00\x00\x00\x00\x00\x00\x00", "XREDIS000", "REDISS", "-ERR unknown", "*1\r\n$4\r\nPING\r\n", "Redis0009"} {
			if checkBroken(c, "signature "+h, h+data[9:], nil, true) {
				return
			}
			if len(h) < 9 && h != "" {
				if checkBroken(c, "short file "+h, h, nil, true) {
					return
				}
			}
		}
		for n := 0; n < 9; n++ {
			if checkBroken(c, "short file", data[:n], nil, true) {
				return
			}
		}
		c.Sample("every single byte change of the signature")
	}})
	tasks = append(tasks, Task{"unsupported", func(c *Ctx) {
		known := map[int]bool{0: true, 1: true, 2: true, 3: true, 4: true, 5: true, 9: true, 10: true, 11: true, 12: true, 13: true, 14: true}
		for ty := 0; ty < 247; ty++ {
			if known[ty] {
				continue
			}
			for _, body := range []string{"", encStr("v"), encLen(3) + encStr("a") + encStr("b"), encLen(0), encLen64(1 << 62), "\x00\x00\x00\x00", encStr(zautos("a", "b")), encLen(1) + encStr(filler(16)) + encStr("listpack")} {
				for _, e := range expiries[:3] {
					if c.Stop() {
						return
					}
					bad := withExp(obj{name: "type " + strconv.Itoa(ty), typ: byte(ty), key: "bad", kenc: encStr("bad"), val: body, want: rval{kind: "?"}}, e.ms, e.sec)
					ok := ptr(oString("good", "1"))
					recs := []record{{0, ok, ""}, {0, bad, ""}, {0, ptr(oString("later", "2")), ""}}
					data, _ := snapshot("", recs)
					what := fmt.Sprintf("unsupported value type %d with body %s", ty, short(body))
					c.Case(func() string { return what })
					c.R.Distinct++
					if checkBroken(c, what, data, recs[:1], true) {
						return
					}
				}
			}
		}
		c.Sample("value types 6-8 and 15-246 with 8 bodies")
	}})
	tasks = append(tasks, Task{"no-encoding", func(c *Ctx) {
		// strings whose first byte is no encoding there is
		for b := 0x82; b < 0x100; b++ {
			if b >= 0xc0 && b <= 0xc3 {
				continue
			}
			x := string([]byte{byte(b)})
			for _, rest := range []string{"", "v", "\x00\x00", strings.Repeat("\x01", 9), encStr("value")} {
				for i, body := range []string{x + rest + encStr("v"), encStr("key") + x + rest} {
					for _, ty := range []byte{0, 1, 2, 3, 4, 5, 9, 10, 11, 12, 13, 14} {
						if c.Stop() {
							return
						}
						if i == 1 && (ty >= 1 && ty <= 5 || ty == 14) {
							body = encStr("key") + encLen(1) + x + rest
						}
						o := obj{name: "no encoding", typ: ty, key: "key", want: rval{kind: "?"}}
						o.kenc, o.val = body[:1], body[1:]
						recs := []record{{0, ptr(oString("good", "1")), ""}, {0, &o, ""}, {0, ptr(oString("later", "2")), ""}}
						data, _ := snapshot("", recs)
						what := fmt.Sprintf("value type %d with a string that begins with the byte %#x in %s", ty, b, short(body))
						c.Case(func() string { return what })
						c.R.Distinct++
						if checkBroken(c, what, data, recs[:1], true) {
							return
						}
					}
				}
			}
		}
		c.Sample("122 first bytes that are no string encoding, as keys and as values of every type")
	}})
	tasks = append(tasks, Task{"too-long", func(c *Ctx) {
		// strings and collections that claim more than the file holds
		lens := []string{encLen14(5000), encLen14(16383), encLen32(20000), encLen32(1<<31 - 1), encLen32(1 << 31), encLen32(1<<32 - 1)}
		for _, n := range []uint64{20000, 1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 3, 1 << 33, 1 << 40, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<63 + 3, 1<<64 - 3, 1<<64 - 1} {
			lens = append(lens, encLen64(n))
		}
		for _, l := range lens {
			type bad struct {
				typ  byte
				body string // key and value
			}
			lz := "\xc3" + l + encLen(9) + "\x00a"
			cases := []bad{{0, l + "key" + encStr("v")}, {0, encStr("key") + l + "val"}, {0, encStr("key") + lz}, {0, encStr("key") + "\xc3" + encLen(2) + l + "\x00a"}, {0, lz + encStr("v")},
				{1, encStr("key") + l + encStr("a") + encStr("b")}, {1, encStr("key") + encLen(2) + encStr("a") + l + "b"}, {1, encStr("key") + encLen(1) + lz},
				{2, encStr("key") + l + encStr("a")}, {2, encStr("key") + encLen(1) + l + "a"},
				{3, encStr("key") + l + encStr("a") + "\x011"}, {5, encStr("key") + l + encStr("a") + strings.Repeat("\x00", 8)}, {3, encStr("key") + encLen(1) + l + "a"}, {5, encStr("key") + encLen(1) + l + "a"},
				{4, encStr("key") + l + encStr("f") + encStr("v")}, {4, encStr("key") + encLen(1) + l + "f" + encStr("v")}, {4, encStr("key") + encLen(1) + encStr("f") + l + "v"},
				{14, encStr("key") + l + encStr(zautos("a"))}, {14, encStr("key") + encLen(1) + l + zautos("a")}}
			for _, ty := range []byte{9, 10, 11, 12, 13} {
				cases = append(cases, bad{ty, encStr("key") + l + "x"}, bad{ty, encStr("key") + lz})
			}
			for _, b := range cases {
				for _, e := range expiries[:3] {
					if c.Stop() {
						return
					}
					o := obj{name: "too long", typ: b.typ, key: "key", want: rval{kind: "?"}}
					o.kenc, o.val = b.body[:1], b.body[1:]
					recs := []record{{0, ptr(oString("good", "1")), ""}, {0, withExp(o, e.ms, e.sec), ""}, {0, ptr(oString("later", "2")), ""}}
					data, _ := snapshot("", recs)
					what := fmt.Sprintf("value type %d with a length of %q in %s", b.typ, l, short(b.body))
					c.Case(func() string { return what })
					c.R.Distinct++
					if checkBroken(c, what, data, recs[:1], true) {
						return
					}
				}
			}
			// in an auxiliary field
			for _, a := range []string{"\xfa" + l + "name" + encStr("v"), "\xfa" + encStr("name") + l + "v"} {
				data, _ := snapshot(a, []record{{0, ptr(oString("later", "2")), ""}})
				what := fmt.Sprintf("an auxiliary field with a length of %q", l)
				c.Case(func() string { return what })
				c.R.Distinct++
				if checkBroken(c, what, data, nil, true) {
					return
				}
			}
		}
		c.Sample("20 lengths larger than the file in every place of every value type")
	}})
	for k := 0; k < 4; k++ {
		k := k
		tasks = append(tasks, Task{fmt.Sprintf("compact-cut-%d", k), func(c *Ctx) {
			// compact encodings that end too early, inside a string of the right length
			bad := func(typ byte, desc, enc string, list bool) bool {
				body := encStr(enc)
				if list {
					body = encLen(2) + encStr(zautos("before")) + encStr(enc)
				}
				o := obj{name: "cut", typ: typ, key: "key", want: rval{kind: "?"}}
				o.kenc, o.val = encStr("key"), body
				for _, e := range expiries[:pick(t, 2, 1)] {
					recs := []record{{0, ptr(oString("good", "1")), ""}, {0, withExp(o, e.ms, e.sec), ""}, {0, ptr(oString("later", "2")), ""}}
					data, _ := snapshot("", recs)
					what := fmt.Sprintf("value type %d holding %s: %s", typ, desc, short(enc))
					c.Case(func() string { return what })
					c.R.Distinct++
					if checkBroken(c, what, data, recs[:1], true) {
						return true
					}
				}
				return false
			}
			ents := []zent{zs6(""), zs6("a"), zs6("\xff"), zs6("\xff\xff\xff"), zs6("\x00"), zs14(filler(70)), zs32("bc"), zimm(0), zimm(12), zi8(-1), zi8(1), zi16(-1), zi16(256), zi24(-1), zi32(-1), zi32(255), zi64(-1), zi64(math.MinInt64), zs6("12")}
			var lists [][]zent
			for _, a := range ents {
				lists = append(lists, []zent{a, a})
				for _, b := range ents {
					lists = append(lists, []zent{a, b})
					if t {
						lists = append(lists, []zent{zs6("m"), a, b, zimm(3)})
					}
				}
			}
			for i, l := range lists {
				for m := 0; m < 2 && i%4 == k; m++ {
					enc := encZiplist(l, func(int) bool { return m == 1 })
					for n := 0; n < len(enc); n++ {
						if n < 10 && i > 3 || n > 60 && n < len(enc)-10 && n%11 != 0 || c.Stop() {
							continue
						}
						desc := fmt.Sprintf("the first %d of %d bytes of the ziplist %s", n, len(enc), shortList(ztexts(l)))
						types := []byte{10, 12, 13}
						if !t {
							types = types[i/4%3 : i/4%3+1]
						}
						for _, ty := range types {
							if bad(ty, desc, enc[:n], false) {
								return
							}
						}
						if (t || i/4%3 == 0) && bad(14, desc, enc[:n], true) {
							return
						}
					}
				}
			}
			for _, w := range []int{2, 4, 8} {
				for cnt := 1; cnt <= 5 && k == 0; cnt++ {
					var l []int64
					for i := 0; i < cnt; i++ {
						l = append(l, int64(i*7-3))
					}
					enc := encIntset(w, l)
					for n := 0; n < len(enc); n++ {
						if bad(11, fmt.Sprintf("the first %d of %d bytes of an intset of %v", n, len(enc), l), enc[:n], false) {
							return
						}
					}
					for _, more := range []uint64{1, 2, 3, 100, 1 << 16, 1<<31 - 10, 1 << 31, 1<<32 - 10} {
						x := enc[:4] + le(uint64(cnt)+more, 4) + enc[8:]
						if c.Stop() || bad(11, fmt.Sprintf("an intset of %v that claims %d members more", l, more), x, false) {
							return
						}
					}
				}
			}
			pairs := []zpair{{"", "", 0}, {"a", "", 1}, {"b", "\xff", 0}, {"\xff", "c\xfe", 2}, {"\xfe\x00", "0", 4}, {filler(254), "x", 0}, {"y", filler(254), 3}, {"\x00", "\x00\x00", 0}}
			for i, a := range pairs {
				for j, b := range pairs {
					if i%4 != k {
						continue
					}
					enc := encZipmap([]zpair{a, b})
					if i == j {
						enc = encZipmap([]zpair{a})
					}
					for n := 0; n < len(enc); n++ {
						if n > 40 && n < len(enc)-20 && n%11 != 0 {
							continue
						}
						if c.Stop() || bad(9, fmt.Sprintf("the first %d of %d bytes of a zipmap", n, len(enc)), enc[:n], false) {
							return
						}
					}
				}
			}
			c.Sample("ziplists of up to 4 entries, intsets and zipmaps cut off at every byte inside their string, intsets that claim more members")
		}})
	}
	return
}

// ---- C29 ----

func c29tasks(t bool) (tasks []Task) {
	round := func(c *Ctx, s string) bool {
		c.R.Evals++
		c.R.States++
		c.R.Transitions += 2
		if c.R.Evals%16 == 0 || len(s) > 100 {
			c.Case(func() string { return "round trip " + short(s) })
		}
		var comp, back string
		p := try(func() {
			comp = lzf.Compress(s)
			back = lzf.DeCompress(comp, len(s))
		})
		if p != "" || back != s {
			return c.Violate("round "+short(s), fmt.Sprintf("%s compresses to %s and decompresses to %s %s", short(s), short(comp), short(back), p), short(s))
		}
		if comp != s {
			c.R.Distinct++
			c.R.Traces++
			if ref, ok := lzfDecode(comp); !ok || ref != s {
				return c.Violate("stream "+short(s), fmt.Sprintf("the compressed form %s of %s is not a valid LZF stream of it", short(comp), short(s)), short(s))
			}
		}
		return false
	}
	words := func(c *Ctx, alpha string, max int) bool {
		buf := make([]byte, max)
		var rec func(n, d int) bool
		rec = func(n, d int) bool {
			if n == d {
				return round(c, string(buf[:n]))
			}
			for i := 0; i < len(alpha); i++ {
				buf[n] = alpha[i]
				if rec(n+1, d) {
					return true
				}
			}
			return false
		}
		for d := 0; d <= max; d++ {
			if c.Stop() || rec(0, d) {
				return true
			}
		}
		return false
	}
	tasks = append(tasks, Task{"round-words", func(c *Ctx) {
		if words(c, "ab", pick(t, 17, 13)) || words(c, "abc", pick(t, 10, 8)) || words(c, "\x00\x01\x20\xff", pick(t, 8, 6)) {
			return
		}
		c.Sample("all words over 2, 3 and 4 letters")
	}})
	tasks = append(tasks, Task{"round-bytes", func(c *Ctx) {
		for a := 0; a < 256; a++ {
			if c.Stop() || round(c, string([]byte{byte(a)})) {
				return
			}
			for b := 0; b < 256; b++ {
				if round(c, string([]byte{byte(a), byte(b)})) || round(c, string([]byte{byte(a), byte(b), byte(a), byte(b), byte(a)})) {
					return
				}
			}
		}
		c.Sample("all strings of 1 and 2 bytes")
	}})
	tasks = append(tasks, Task{"round-shapes", func(c *Ctx) {
		max := pick(t, 1200, 420)
		for n := 0; n < max; n++ {
			if c.Stop() {
				return
			}
			f := filler(n)
			for _, s := range []string{strings.Repeat("a", n), f, letters(n), f + f, strings.Repeat("ab", n), f + strings.Repeat("z", n%300), filler(3) + strings.Repeat("\x00", n) + filler(3), f + letters(20) + letters(20)} {
				if round(c, s) {
					return
				}
			}
		}
		for _, s := range compressible() {
			if round(c, s) || round(c, s+filler(50)) {
				return
			}
		}
		for _, d := range []int{8189, 8190, 8191, 8192, 8193, 8194, 65535, 65536} {
			f := filler(d)
			for n := 0; n < 300; n += pick(t, 1, 7) {
				if round(c, f+f[:n]) {
					return
				}
			}
		}
		for _, n := range []int{65535, 65536, 65537, 1 << 20} {
			if round(c, filler(n)) || round(c, strings.Repeat("a", n)) || round(c, letters(n)) {
				return
			}
		}
		c.Sample("runs, periods and noise of every length to 420 (thorough 1200), far repeats")
	}})
	// arbitrary bytes: under AddressSanitizer an access outside the buffers kills the process
	junk := func(c *Ctx, s string, n int) bool {
		c.R.Evals++
		c.R.Transitions++
		if c.R.Evals%64 == 0 || c.prog != nil {
			c.Case(func() string { return fmt.Sprintf("decompress %s to %d bytes", short(s), n) })
		}
		var out string
		p := try(func() { out = lzf.DeCompress(s, n) })
		if p != "" {
			return c.Violate("junk", fmt.Sprintf("decompressing %s to %d bytes: %s", short(s), n, p), short(s))
		}
		_ = out
		// inside a snapshot: its value if it decodes to exactly n bytes, otherwise an error
		if n == 0 || s == "" {
			return false
		}
		want, ok := lzfDecode(s)
		ok = ok && len(want) == n
		var err error
		p = try(func() {
			out, err = rdb.LoadString(bufio.NewReaderSize(strings.NewReader("\xc3"+encLen(uint64(len(s)))+encLen(uint64(n))+s+"abcdefgh"), 16))
		})
		if p != "" || ok && (err != nil || out != want) || !ok && err == nil {
			return c.Violate("snapshot junk "+short(s), fmt.Sprintf("the compressed string %s declared to be of %d bytes is read as %s, error %v %s; it decodes to %s", short(s), n, short(out), err, p, short(want)), short(s))
		}
		return false
	}
	ctl := []byte{0, 1, 2, 5, 31, 32, 33, 0x3f, 0x40, 0x5f, 0xc0, 0xdf, 0xe0, 0xe1, 0xff, 7, 0x20 | 0x10, 0x80}
	for k := 0; k < 3; k++ {
		k := k
		tasks = append(tasks, Task{fmt.Sprintf("junk-%d", k), func(c *Ctx) {
			lens := [][]int{{0, 1, 2, 3}, {4, 5, 8, 9, 33}, {10, 16, 32, 264, 300}}[k]
			for a := 0; a < 256; a++ {
				if c.Stop() {
					return
				}
				for _, n := range lens {
					if junk(c, string([]byte{byte(a)}), n) {
						return
					}
					for b := 0; b < 256; b++ {
						if junk(c, string([]byte{byte(a), byte(b)}), n) {
							return
						}
					}
				}
				c.R.States += 257
			}
			d := pick(t, 5, 4)
			buf := make([]byte, d)
			var rec func(n, m int) bool
			rec = func(n, m int) bool {
				if n == m {
					c.R.States++
					for _, l := range lens {
						if junk(c, string(buf[:n]), l) {
							return true
						}
					}
					return false
				}
				for _, x := range ctl {
					buf[n] = x
					if rec(n+1, m) {
						return true
					}
				}
				return c.Stop()
			}
			for m := 3; m <= d; m++ {
				if rec(0, m) {
					return
				}
			}
			// a literal prefix, then every control and operand
			for a := 0; a < 256; a++ {
				for _, b := range []byte{0, 1, 2, 5, 30, 31, 255} {
					for _, x := range []byte{0, 3, 4, 31, 255} {
						for _, n := range lens {
							for _, pre := range []string{"\x02abc", "\x00a", "\x1f" + filler(32)} {
								if junk(c, pre+string([]byte{byte(a), b, x}), n) || junk(c, pre+string([]byte{byte(a), b}), n+len(pre)) || junk(c, pre+string([]byte{byte(a)}), len(pre)) {
									return
								}
							}
						}
					}
				}
			}
			junk(c, "", lens[0])
			c.Sample("all strings of 1 and 2 bytes, all of 3 and 4 bytes over 18 control bytes")
		}})
	}
	tasks = append(tasks, Task{"junk-streams", func(c *Ctx) {
		lzfStreams(3, func(enc string) bool {
			want, ok := lzfDecode(enc)
			if !ok {
				return true
			}
			c.R.States++
			for _, n := range []int{len(want) - 1, len(want) + 1, len(want) / 2, 1} {
				if n >= 0 && junk(c, enc, n) {
					return false
				}
			}
			for _, k := range []int{1, len(enc) - 1, len(enc) - 2} {
				if k > 0 && k < len(enc) && junk(c, enc[:k], len(want)) {
					return false
				}
			}
			return !c.Stop()
		})
		c.Sample("valid streams with a wrong length, and cut off")
	}})
	tasks = append(tasks, Task{"snapshot-strings", func(c *Ctx) {
		strCase := func(what, enc string) bool {
			c.R.Evals++
			c.R.States++
			c.R.Distinct++
			c.Case(func() string { return what + " " + short(enc) })
			var s string
			var err error
			p := try(func() { s, err = rdb.LoadString(bufio.NewReader(strings.NewReader(enc + strings.Repeat("\x00", 40)))) })
			if p != "" || err == nil {
				return c.Violate(what+" "+short(enc), fmt.Sprintf("%s (%s): read as %s, error %v %s", what, short(enc), short(s), err, p), short(enc))
			}
			return false
		}
		n := 0
		lzfStreams(pick(t, 3, 2), func(enc string) bool {
			want, ok := lzfDecode(enc)
			if !ok || want == "" {
				return true
			}
			n++
			for _, d := range []int{-1, 1, 2, 30, -(len(want) / 2), 100000, 1 << 22} {
				l := len(want) + d
				if l <= 0 || l == len(want) {
					continue
				}
				x := "\xc3" + encLen(uint64(len(enc))) + encLen(uint64(l)) + enc
				if strCase("a compressed string declared "+strconv.Itoa(l)+" instead of "+strconv.Itoa(len(want))+" bytes", x) {
					return false
				}
			}
			return n%16 != 0 || !c.Stop()
		})
		for _, bad := range []string{"\x05ab", "\x20\x00", "\x00a\x20\x05", "\xe0\x00\x00", "\xff", "\x00a\xff\xff\xff", "\x1f", "\x00a\x40", "\x00a\xe0\x01"} {
			for l := 1; l < 40; l++ {
				if d, ok := lzfDecode(bad); ok && len(d) == l {
					continue
				}
				if strCase("damaged compressed string", "\xc3"+encLen(uint64(len(bad)))+encLen(uint64(l))+bad) {
					return
				}
			}
		}
		c.Sample(fmt.Sprintf("%d compressed strings with wrong declared lengths", n))
	}})
	return
}

// ---- C35 ----

func c35tasks(t bool) (tasks []Task) {
	keys := []string{"", "a", "b", "ab", "\x00", "\xff", "\xfe", "\x01a", "a\x00\x00b", letters(253), letters(254), filler(255), filler(300), "\x01a\x01\x00v"}
	vals := []string{"", "v", "\xff", "\x01b\x00\x00", filler(253), filler(254), filler(255), filler(70), "ab"}
	type kv struct{ k, v string }
	check := func(c *Ctx, seq []kv, probe []string) bool {
		c.R.Evals++
		c.R.States++
		c.R.Traces++
		c.R.Distinct++
		desc := func() string {
			s := ""
			for i, x := range seq {
				if i == 6 {
					return s + "..."
				}
				s += fmt.Sprintf("Set(%s,%s) ", short(shorten(x.k, 12)), short(shorten(x.v, 12)))
			}
			return s
		}
		c.Case(desc)
		bad := ""
		p := try(func() {
			m := zipmap.New()
			have := map[string]bool{}
			for i, x := range seq {
				if err := m.Set(x.k, x.v); err != nil {
					bad = "Set fails: " + err.Error()
					return
				}
				have[x.k] = true
				if i != len(seq)-1 && len(seq) > 8 {
					continue
				}
				for _, k := range probe {
					c.R.Transitions++
					if _, ok := m.Lookup(k); ok != have[k] {
						bad = fmt.Sprintf("after %d calls Lookup(%s) reports %v", i+1, short(shorten(k, 20)), ok)
						return
					}
				}
			}
		})
		if p != "" {
			bad = "panic: " + p
		}
		if bad != "" {
			return c.Violate("zipmap "+desc(), desc()+": "+bad, desc())
		}
		return false
	}
	tasks = append(tasks, Task{"pairs", func(c *Ctx) {
		for _, k1 := range keys {
			for _, v1 := range vals {
				if c.Stop() || check(c, []kv{{k1, v1}}, keys) {
					return
				}
				for _, k2 := range keys {
					for _, v2 := range vals {
						if check(c, []kv{{k1, v1}, {k2, v2}}, keys) {
							return
						}
					}
				}
			}
		}
		c.Sample("all pairs of Set calls over 14 keys and 9 values")
	}})
	tasks = append(tasks, Task{"lengths", func(c *Ctx) {
		// a key or value of every length, then one that must still be found, then a replacement
		var ns []int
		for n := 0; n < 600; n++ {
			ns = append(ns, n)
		}
		for _, n := range []int{1 << 10, 1 << 12, 1 << 14, 1 << 15, 1 << 16, 1 << 17, 1 << 20} {
			ns = append(ns, n-255, n-1, n, n+1, n+97, n+254)
		}
		if deep() {
			ns = append(ns, 1<<24-1, 1<<24, 1<<24+1)
		}
		for _, n := range ns {
			if c.Stop() {
				return
			}
			s := filler(n)
			for _, seq := range [][]kv{{{s, "x"}, {"q", "y"}}, {{"p", s}, {"q", "y"}}, {{"p", "x"}, {"q", s}, {"r", s}}, {{s, s}, {"q", "y"}, {"p", s}}, {{"p", s}, {"q", "y"}, {"p", "z"}, {"q", s}, {"r", ""}}} {
				if check(c, seq, []string{s, "p", "q", "r", s + "0", "x"}) {
					return
				}
			}
		}
		c.Sample("keys and values of every length to 600, around powers of two to 1 MiB (thorough 16 MiB)")
	}})
	tasks = append(tasks, Task{"embedded", func(c *Ctx) {
		// the bytes of an entry inside, at the border of or across other entries
		ln := func(s string) string {
			if len(s) < 254 {
				return string([]byte{byte(len(s))})
			}
			return "\xfe" + le(uint64(len(s)), 4)
		}
		try1 := func(seqs ...[]kv) bool {
			for _, s := range seqs {
				var probe []string
				for _, x := range s {
					probe = append(probe, x.k, x.v)
				}
				if c.Stop() || check(c, s, append(probe, seqs[0][0].k, "", "a", "z")) {
					return true
				}
			}
			return false
		}
		for n := 1; n < 270; n++ {
			if n > 20 && n < 250 && n%16 > 1 {
				continue
			}
			for _, k := range []string{letters(n), strings.Repeat("a", n), strings.Repeat("\xff", n), strings.Repeat("\x00", n), filler(n)} {
				v := "v"
				for _, img := range []string{k, ln(k) + k, ln(k) + k + "\x01\x00v", ln(k) + k + "\x01\x00v\xff", ln(k), "\x01" + ln(k) + k + "\x00\x00", "\xff" + ln(k) + k, "\x00" + ln(k) + k + "\x01\x00v", "\x02\x00" + ln(k) + k} {
					for _, w := range []string{img, "x" + img, img + "x", "xy" + img + "xyz"} {
						o := kv{"o", w}
						if try1([]kv{{k, v}, o}, []kv{o}, []kv{o, {k, v}}, []kv{{w, "o"}}, []kv{{w, "o"}, {k, v}}, []kv{{w, w}, {"z", w}}, []kv{{"z", ""}, o, {"w", k}}) {
							return
						}
					}
				}
				// across the border of key and value, and of two entries
				for _, m := range []int{0, 1, 3, n, 253} {
					val := k + letters(m)
					if len(val) < 254 {
						x := ln(val) + "\x00" + k
						if try1([]kv{{x, v}, {"z", ""}}, []kv{{"p" + ln(x), val}}, []kv{{"p" + ln(x), val}, {x, v}}, []kv{{ln(x), val}, {"z", ""}}) {
							return
						}
					}
					y := ln(val) + val
					if try1([]kv{{y, v}, {"z", ""}}, []kv{{"p", "q" + ln(y)}, {val, v}}, []kv{{"p", ln(y)}, {val, ""}, {y, ""}}, []kv{{val, "\x01"}, {"q", val}}) {
						return
					}
				}
			}
		}
		c.Sample("entry images inside keys and values and across entry borders, for 100 key lengths")
	}})
	kk := []string{"", "a", "b", "\xff", letters(254), "\x01a\x01\x00v", "\x00"}
	vv := []string{"", "v", "\x01b\x00\x00", filler(254)}
	d := pick(deep(), 5, 4)
	for i := range kk {
		i := i
		tasks = append(tasks, Task{fmt.Sprintf("sequences-%d", i), func(c *Ctx) {
			var rec func(seq []kv) bool
			rec = func(seq []kv) bool {
				if check(c, seq, keys) {
					return true
				}
				if len(seq) == d {
					return c.Stop()
				}
				for _, k := range kk {
					for _, v := range vv {
						if rec(append(seq[:len(seq):len(seq)], kv{k, v})) {
							return true
						}
					}
				}
				return false
			}
			for _, v := range vv {
				if rec([]kv{{kk[i], v}}) {
					return
				}
			}
			c.Sample("sequences of Set calls starting with key " + short(shorten(kk[i], 10)))
		}})
	}
	tasks = append(tasks, Task{"many", func(c *Ctx) {
		for _, n := range []int{5, 100, 252, 253, 254, 255, 256, 257, 300, 1000} {
			for _, vl := range []int{0, 3, 260} {
				if c.Stop() {
					return
				}
				var seq []kv
				var probe []string
				for i := 0; i < n; i++ {
					k := "k" + strconv.Itoa(i)
					seq = append(seq, kv{k, filler(vl)})
					probe = append(probe, k, "n"+strconv.Itoa(i))
				}
				if check(c, seq, append(probe, keys...)) {
					return
				}
			}
		}
		c.Sample("up to 1000 keys")
	}})
	return
}

func init() {
	props["C25"] = &Prop{Tasks: c25tasks, Rule: "every encoded item of a grammar (lengths, strings, doubles) under every fragmentation within bounds and two buffer sizes; its truncations must fail",
		Bounds: func(t bool) string {
			return "all 6, 14 bit lengths and 8, 16 bit integers, power-of-two neighbourhoods and single-byte patterns of the wider ones; raw strings to 1 MiB; LZF streams of up to 4 (thorough 5) of 69 tokens; all 2^(n-1) fragmentations of items up to 11 (thorough 14) bytes with their tail"
		}}
	props["C26"] = &Prop{Tasks: c26tasks, Rule: "every sequence of up to 3 entries over an alphabet of all encodings and boundary contents, written by an independent encoder; all 8/16 bit integers",
		Bounds: func(t bool) string {
			return "ziplists: 36 entries, all pairs x both previous-length forms, triples; up to 70000 entries; intset: all 16 bit members, pairs of boundary members; zipmap: lengths 0..1000, 0..252 free bytes, up to 1000 pairs"
		}}
	props["C27"] = &Prop{Tasks: c27tasks, Rule: "every value form x expiry form x key form x database, and all pairs/triples of core objects with noise records, loaded and executed by a reference store",
		Bounds: func(t bool) string {
			return fmt.Sprintf("%d value forms, 10 expiries, 11 keys, 8 databases; triples of 12 core objects; every alignment against the 4096 byte buffer; up to 3000 keys", len(catalogue(t)))
		}}
	props["C28"] = &Prop{Tasks: c28tasks, Rule: "every snapshot of the catalogue (small ones) cut at every byte, every one-byte change of the signature, every unsupported value type with several bodies",
		Bounds: func(t bool) string { return "snapshots of three objects up to 20000 (thorough 200000) bytes" }}
	props["C29"] = &Prop{Tasks: c29tasks, Rule: "all words over small alphabets and shapes of every length round-trip; all short byte strings are decompressed to several lengths under AddressSanitizer",
		Bounds: func(t bool) string {
			return "words of 13 (thorough 17) letters over 2, 8 (10) over 3; arbitrary bytes of length 1, 2 and of length 3, 4 (5) over 18 control bytes; streams of 3 tokens"
		}}
	props["C35"] = &Prop{Tasks: c35tasks, Rule: "all sequences of Set calls over a key and value alphabet, every key of the alphabet looked up after each",
		Bounds: func(t bool) string {
			return "pairs over 14 keys x 9 values, sequences of 4 (thorough 5) over 7 keys x 4 values, keys and values of every length to 600 and around powers of two to 1 MiB, up to 1000 keys"
		}}
}
