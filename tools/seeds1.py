H = '''
package cache_test

import (
	"testing"
%s
	. "github.com/liujiangwei/xxcache/cache"
)
'''
def demo(body, *imports):
    return H % "".join('\t"%s"\n' % i for i in imports) + body
CS = "cache/cachestring.go"; CH = "cache/cachehash.go"; CU = "cache/cacheutil.go"; CD = "cache/cachedb.go"
SEEDS = [
dict(id="c01-big-floats", prop="C01", pkg="cache", edits=[(CS, "str = strconv.FormatFloat(value, 'f', -1, 64)", "str = strconv.FormatFloat(value, 'g', -1, 64)")],
 needs="a stored text that is a decimal number of 21 or more digits (kept as a float)", breaks="Get returns 1e+21 for the stored text 1000000000000000000000",
 demo=demo('''
func TestZZDemo(t *testing.T) {
	c := New()
	v := "1000000000000000000000"
	c.Set("k", v)
	if g, err := c.Get("k"); g != v || err != nil {
		t.Fatalf("stored %s, read %s %v", v, g, err)
	}
}
''')),
dict(id="c01-trim-number", prop="C01", pkg="cache", edits=[(CS, "\treturn value\n}\n\n// SET if Not eXists", "\treturn strings.TrimRight(value, \"\\x00\")\n}\n\n// SET if Not eXists"), (CS, '\t"strconv"\n', '\t"strconv"\n\t"strings"\n')],
 needs="a value ending in a zero byte", breaks="trailing zero bytes of stored values are lost",
 demo=demo('''
func TestZZDemo(t *testing.T) {
	c := New()
	c.Set("k", "bin\\x00")
	if g, _ := c.Get("k"); g != "bin\\x00" {
		t.Fatalf("read %q", g)
	}
}
''')),
dict(id="c02-empty-is-absent", prop="C02", pkg="cache", edits=[(CS, "if _, loaded := c.dataDict.LoadOrStore(k, tryInt64(v)); !loaded {\n\t\t\tn++", "if old, loaded := c.dataDict.LoadOrStore(k, tryInt64(v)); !loaded || old == \"\" {\n\t\t\tc.dataDict.Store(k, tryInt64(v))\n\t\t\tn++")],
 needs="MSetNX on a key that holds the empty string", breaks="MSetNX overwrites an existing empty value and counts it as created",
 demo=demo('''
func TestZZDemo(t *testing.T) {
	c := New()
	c.Set("k", "")
	if n := c.MSetNX(map[string]string{"k": "x"}); n != 0 {
		t.Fatalf("%d keys stored", n)
	}
	if g, _ := c.Get("k"); g != "" {
		t.Fatalf("read %q", g)
	}
}
''')),
dict(id="c03-far-negative", prop="C03", pkg="cache", edits=[(CS, "\tif start < 0 {\n\t\tstart = len(oldStr) + start\n\t}", "\tif start < 0 && len(oldStr) > 0 {\n\t\tstart = len(oldStr) - 1 - (-start-1)%len(oldStr)\n\t}")],
 needs="a GetRange whose negative start lies before the first byte", breaks="the start wraps around instead of being the first byte",
 demo=demo('''
func TestZZDemo(t *testing.T) {
	c := New()
	c.Set("k", "abcdef")
	if g, _ := c.GetRange("k", -3, -2); g != "de" {
		t.Fatalf("read %q", g)
	}
	if g, _ := c.GetRange("k", -8, 2); g != "abc" {
		t.Fatalf("read %q", g)
	}
}
''')),
dict(id="c04-counter-width", prop="C04", pkg="cache", edits=[(CS, "\tcase int64:\n\t\tval = t + increment\n\t\tn = int(t + increment)", "\tcase int64:\n\t\tn = int(int32(t)) + int(increment)\n\t\tval = int64(n)")],
 needs="a counter created by IncrBy (kept as int64) that has grown beyond 32 bits and is then incremented again", breaks="the upper half of the counter is lost",
 demo=demo('''
func TestZZDemo(t *testing.T) {
	c := New()
	c.IncrBy("k", 5000000000)
	if n, err := c.Incr("k"); n != 5000000001 || err != nil {
		t.Fatal(n, err)
	}
}
''')),
dict(id="c04-float-residue", prop="C04", pkg="cache", edits=[(CS, "\t\tval += increment\n\t\tc.dataDict.Store(key, tryInt64(strconv.FormatFloat(val, 'f', -1, 64)))", "\t\tval = val + increment\n\t\tc.dataDict.Store(key, val)")],
 needs="IncrByFloat twice with a whole result, then Incr", breaks="a counter whose text is an integer is refused by Incr because it is kept as a float",
 demo=demo('''
func TestZZDemo(t *testing.T) {
	c := New()
	c.Set("k", "1.5")
	c.IncrByFloat("k", 0.5)
	if g, _ := c.Get("k"); g != "2" {
		t.Fatal(g)
	}
	if n, err := c.Incr("k"); n != 3 || err != nil {
		t.Fatal(n, err)
	}
}
''')),
dict(id="c05-float-of-int", prop="C05", pkg="cache", edits=[(CS, "\tcase int:\n\t\tf := float64(val) + increment", "\tcase int:\n\t\tf := float64(float32(val)) + increment")],
 needs="IncrByFloat on an integer above 2^24", breaks="the sum is computed from a rounded operand",
 demo=demo('''
func TestZZDemo(t *testing.T) {
	c := New()
	c.Set("k", "16777217")
	if f, err := c.IncrByFloat("k", 0.5); f != 16777217.5 || err != nil {
		t.Fatal(f, err)
	}
}
''')),
dict(id="c06-hash-outlives", prop="C06", pkg="cache", edits=[(CH, "func (c *Cache) getHashEntry(key string) (*hashEntry, error) {\n\tentry, ok := c.get(key)", "func (c *Cache) getHashEntry(key string) (*hashEntry, error) {\n\tentry, ok := c.dataDict.Load(key)")],
 needs="a hash command on a key whose string value has expired but has not been reclaimed", breaks="hash commands answer WRONGTYPE for a key that no longer exists",
 demo=demo('''
func TestZZDemo(t *testing.T) {
	c := New()
	c.PSetEX("k", "v", 10)
	time.Sleep(30 * time.Millisecond)
	if n, err := c.HSet("k", "f", "v"); n != 1 || err != nil {
		t.Fatal(n, err)
	}
}
''', "time")),
dict(id="c07-flush-deadlines", prop="C07", pkg="cache", edits=[(CD, "\tc.dataDict = &SyncMapDatabase{}\n\tc.expiresDict = &SyncMapDatabase{}\n", "\tc.dataDict = &SyncMapDatabase{}\n")],
 needs="SetEX, Flush, then SetNX of the same key before the old deadline", breaks="a flushed key's deadline comes back to haunt the value created afterwards",
 demo=demo('''
func TestZZDemo(t *testing.T) {
	c := New()
	c.PSetEX("k", "v", 60)
	c.Flush()
	c.SetNX("k", "w")
	time.Sleep(120 * time.Millisecond)
	if g, err := c.Get("k"); g != "w" {
		t.Fatal(g, err)
	}
}
''', "time")),
dict(id="c07-del-by-type", prop="C07", pkg="cache", edits=[(CD, "\tc.dataDict.Delete(key)\n\tc.expiresDict.Delete(key)\n\n\treturn n", "\tc.dataDict.Delete(key)\n\n\treturn n")],
 needs="SetEX, Del, then an Append or Incr of the same key before the old deadline", breaks="Del leaves the deadline behind, the next value disappears with it",
 demo=demo('''
func TestZZDemo(t *testing.T) {
	c := New()
	c.PSetEX("k", "v", 60)
	c.Del("k")
	c.Append("k", "w")
	time.Sleep(120 * time.Millisecond)
	if g, err := c.Get("k"); g != "w" {
		t.Fatal(g, err)
	}
}
''', "time")),
dict(id="c08-sweep-no-deadline", prop="C08", pkg="cache", edits=[("cache/cachecron.go", "if expire.Before(time.Now()){", "if expire.Before(time.Now().Add(duration)){")],
 needs="the background service sweeping while a key's deadline lies less than one period ahead", breaks="the sweep removes keys up to two seconds before their deadline",
 demo=demo('''
func TestZZDemo(t *testing.T) {
	c := New()
	c.Cron()
	c.PSetEX("k", "v", 3500)
	time.Sleep(2600 * time.Millisecond)
	if g, err := c.Get("k"); g != "v" {
		t.Fatal("gone after 2.6 s of 3.5 s", err)
	}
}
''', "time")),
dict(id="c09-hsetnx-empty", prop="C09", pkg="cache", edits=[(CH, "\tif _, ok := he.LoadOrStore(field, value); !ok {\n\t\the.length++\n\t\tn = 1\n\t}", "\tif old, ok := he.get(field); !ok || old == \"\" {\n\t\the.set(field, value)\n\t\tn = 1\n\t}")],
 needs="HSetNX on a field holding the empty string", breaks="an existing empty field is overwritten and reported as new",
 demo=demo('''
func TestZZDemo(t *testing.T) {
	c := New()
	c.HSet("h", "f", "")
	if n, _ := c.HSetNX("h", "f", "x"); n != 0 {
		t.Fatal("reported as created")
	}
	if g, err := c.HGet("h", "f"); g != "" || err != nil {
		t.Fatal(g, err)
	}
}
''')),
dict(id="c10-hdel-repeats", prop="C10", pkg="cache", edits=[(CH, "\t\tif _, ok := he.get(field); ok {\n\t\t\tn++\n\t\t\the.Delete(field)\n\t\t}\n\t}\n", "\t\tif _, ok := he.get(field); ok {\n\t\t\tn++\n\t\t}\n\t}\n\tfor _, field := range fields {\n\t\the.Delete(field)\n\t}\n")],
 needs="HDel naming the same existing field twice", breaks="HLen drifts away from the number of fields",
 demo=demo('''
func TestZZDemo(t *testing.T) {
	c := New()
	c.HMSet("h", map[string]string{"a": "1", "b": "2", "c": "3"})
	c.HDel("h", "a", "a")
	if n, _ := c.HLen("h"); n != 2 {
		t.Fatal("HLen", n)
	}
}
''')),
dict(id="c11-hash-float", prop="C11", pkg="cache", edits=[(CH, "\t\the.set(field, strconv.FormatFloat(increment, 'f', -1, 64))\n", "\t\the.set(field, strconv.FormatFloat(increment, 'f', 8, 64))\n")],
 needs="HIncrByFloat creating a field with more than 8 decimals", breaks="the field does not hold the returned number",
 demo=demo('''
func TestZZDemo(t *testing.T) {
	c := New()
	f, _ := c.HIncrByFloat("h", "f", 0.0000000012)
	g, _ := c.HGet("h", "f")
	if x, err := strconv.ParseFloat(g, 64); err != nil || x != f {
		t.Fatal(f, g)
	}
}
''', "strconv")),
dict(id="c12-hash-over-empty", prop="C12", pkg="cache", edits=[(CH, "\tif he, ok := entry.(*hashEntry); ok {\n\t\treturn he, nil\n\t} else {", "\tif he, ok := entry.(*hashEntry); ok || entry == \"\" {\n\t\treturn he, nil\n\t} else {")],
 needs="a hash command on a key holding the empty string", breaks="hash commands treat an empty string as absent and overwrite it",
 demo=demo('''
func TestZZDemo(t *testing.T) {
	c := New()
	c.Set("k", "")
	if _, err := c.HSet("k", "f", "v"); err != ErrWrongType {
		t.Fatal(err)
	}
}
''')),
dict(id="c12-append-hash", prop="C12", pkg="cache", edits=[(CS, "\tif old, err := fmtString(old); err != nil {\n\t\treturn 0, err\n\t} else {\n\t\tvalue = old + value\n\t}", "\tif value == \"\" {\n\t\treturn 0, nil\n\t} else if old, err := fmtString(old); err != nil {\n\t\treturn 0, err\n\t} else {\n\t\tvalue = old + value\n\t}")],
 needs="Append of the empty string to an existing value", breaks="Append of nothing reports length 0 and no wrong-type error",
 demo=demo('''
func TestZZDemo(t *testing.T) {
	c := New()
	c.HSet("h", "f", "v")
	if _, err := c.Append("h", ""); err != ErrWrongType {
		t.Fatal(err)
	}
}
''')),
dict(id="c13-exists-repeats", prop="C13", pkg="cache", edits=[(CD, "\tfor _, key := range keys{\n", "\tseen := make(map[string]bool, len(keys))\n\tfor _, key := range keys {\n\t\tif seen[key] {\n\t\t\tcontinue\n\t\t}\n\t\tseen[key] = true\n")],
 needs="Exists naming one key twice", breaks="repeated keys are counted once",
 demo=demo('''
func TestZZDemo(t *testing.T) {
	c := New()
	c.Set("a", "1")
	if n := c.Exists("a", "b", "a"); n != 2 {
		t.Fatal(n)
	}
}
''')),
dict(id="c14-incr-shared-lock", prop="C14", pkg="cache", edits=[(CS, "func (c *Cache) IncrBy(key string, increment int64) (int, error) {\n\tc.lock.Lock()\n\tdefer c.lock.Unlock()", "func (c *Cache) IncrBy(key string, increment int64) (int, error) {\n\tc.lock.RLock()\n\tdefer c.lock.RUnlock()")],
 needs="two increments of one key interleaving", breaks="increments are lost",
 demo=demo('''
func TestZZDemo(t *testing.T) {
	c := New()
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100000; i++ {
				c.Incr("n")
			}
		}()
	}
	wg.Wait()
	if n, _ := c.IncrBy("n", 0); n != 800000 {
		t.Fatal(n)
	}
}
''', "sync")),
dict(id="c14-append-fast-path", prop="C14", pkg="cache", edits=[(CS, '''func (c *Cache) Append(key string, value string) (int, error) {
	c.lock.Lock()
	defer c.lock.Unlock()

	old, ok := c.dataDict.Load(key)
''', '''func (c *Cache) Append(key string, value string) (int, error) {
	// look the value up under the shared lock
	c.lock.RLock()
	old, ok := c.dataDict.Load(key)
	c.lock.RUnlock()

	c.lock.Lock()
	defer c.lock.Unlock()

''')],
 needs="a write to the key between Append's lookup and its store", breaks="concurrent appends are lost",
 demo=demo('''
func TestZZDemo(t *testing.T) {
	for r := 0; r < 200; r++ {
		c := New()
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 100; i++ {
					c.Append("k", "x")
				}
			}()
		}
		wg.Wait()
		if n, _ := c.StrLen("k"); n != 800 {
			t.Fatal(n)
		}
	}
}
''', "sync")),
dict(id="c15-hset-creates", prop="C15", pkg="cache", edits=[(CH, '''	c.lock.Lock()
	defer c.lock.Unlock()

	he, err := c.getHashEntry(key)
	if err != nil {
		return 0, err
	}

	if he == nil {
		he = newHash()
		c.dataDict.Store(key, he)
	}

	return he.set(field, value), nil
''', '''	c.lock.RLock()
	he, err := c.getHashEntry(key)
	c.lock.RUnlock()
	if err != nil {
		return 0, err
	}

	c.lock.Lock()
	defer c.lock.Unlock()
	if he == nil {
		he = newHash()
		c.dataDict.Store(key, he)
	}

	n = he.set(field, value)
	return n, nil
''')],
 needs="two first HSets of one key interleaving, or an HDel of the last field in between", breaks="one of two concurrently created fields is lost",
 demo=demo('''
func TestZZDemo(t *testing.T) {
	c := New()
	for r := 0; r < 100000; r++ {
		k := fmt.Sprint("h", r)
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				c.HSet(k, fmt.Sprint(g), "v")
			}()
		}
		wg.Wait()
		if n, _ := c.HLen(k); n != 4 {
			t.Fatal(r, n)
		}
	}
}
''', "fmt", "sync")),
dict(id="c16-mset-per-key", prop="C16", pkg="cache", edits=[(CS, '''	c.lock.Lock()
	defer c.lock.Unlock()

	for k, v := range kv {
		c.dataDict.Store(k, tryInt64(v))
		c.expires(k, 0)
	}
''', '''	for k, v := range kv {
		c.lock.Lock()
		c.dataDict.Store(k, tryInt64(v))
		c.expires(k, 0)
		c.lock.Unlock()
	}
''')],
 needs="an MGet between two key stores of one MSet", breaks="a reader sees half of an MSet",
 demo=demo('''
func TestZZDemo(t *testing.T) {
	c := New()
	c.MSet(map[string]string{"a": "0", "b": "0"})
	var stop int32
	go func() {
		for i := 0; atomic.LoadInt32(&stop) == 0; i++ {
			c.MSet(map[string]string{"a": fmt.Sprint(i), "b": fmt.Sprint(i)})
		}
	}()
	defer atomic.StoreInt32(&stop, 1)
	for end := time.Now().Add(4 * time.Second); time.Now().Before(end); {
		v := c.MGet("a", "b")
		if v[0] != v[1] {
			t.Fatal(v)
		}
	}
}
''', "fmt", "sync/atomic", "time")),
dict(id="c17-lazy-reclaim", prop="C17", pkg="cache", edits=[(CU, "\tif expired {\n\t\tc.dataDict.Delete(key)\n\t\tc.expiresDict.Delete(key)\n\t}\n", "\tif expired {\n\t\tdata, deadlines := c.dataDict, c.expiresDict\n\t\tdeadlines.Delete(key)\n\t\tgo data.Delete(key)\n\t}\n")],
 needs="a fresh value written between a reader's expiry decision and the reclaiming goroutine", breaks="reclaiming an expired key destroys a newer value",
 demo=demo('''
func TestZZDemo(t *testing.T) {
	for r := 0; r < 3000; r++ {
		c := New()
		c.PSetEX("k", "old", 1)
		time.Sleep(2 * time.Millisecond)
		c.SetNX("k", "fresh")
		c.Append("k", "er")
		c.Set("k", "fresh")
		runtime.Gosched()
		for i := 0; i < 20; i++ {
			runtime.Gosched()
		}
		if g, _ := c.Get("k"); g != "fresh" {
			t.Fatalf("round %d: %q", r, g)
		}
	}
}
''', "runtime", "time")),
dict(id="c18-nested-read-lock", prop="C18", pkg="cache", edits=[(CH, '''	if he == nil {
		return 0, nil
	}

	return he.length, nil''', '''	if he == nil || c.Exists(key) == 0 {
		return 0, nil
	}

	return he.length, nil''')],
 needs="a writer asking for the lock between HLen's two read locks", breaks="HLen and a writer deadlock",
 demo=demo('''
func TestZZDemo(t *testing.T) {
	c := New()
	c.HSet("h", "f", "v")
	done := make(chan bool)
	go func() {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 300000; i++ {
					if g%2 == 0 {
						c.HLen("h")
					} else {
						c.HSet("h", "f", "v")
					}
				}
			}()
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("deadlock")
	}
}
''', "sync", "time")),
]
