CS="cache/cachestring.go"; CH="cache/cachehash.go"; CM="cache/message.go"
def demo(pkg, body, *imports):
    return "package %s\n\nimport (\n\t\"testing\"\n%s)\n%s" % (pkg, "".join('\t"%s"\n' % i for i in imports), body)
SEEDS=[
dict(id="c02-msetnx-stops", prop="C02", pkg="cache", edits=[(CS, "\t\tif _, loaded := c.dataDict.LoadOrStore(k, tryInt64(v)); !loaded {\n\t\t\tn++\n\t\t}\n", "\t\tif _, loaded := c.dataDict.LoadOrStore(k, tryInt64(v)); loaded {\n\t\t\tbreak\n\t\t}\n\t\tn++\n")],
 needs="an MSetNX in which a key that exists comes before an absent one in map order", breaks="absent keys are not set",
 demo=demo("cache", '''
func TestZZDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		c := New()
		c.Set("a", "1")
		if n := c.MSetNX(map[string]string{"a": "x", "b": "y", "c": "z"}); n != 2 {
			t.Fatal(n)
		}
	}
}
''')),
dict(id="c03-append-digits", prop="C03", pkg="cache", edits=[(CS, "\tif old, err := fmtString(old); err != nil {\n\t\treturn 0, err\n\t} else {\n\t\tvalue = old + value\n\t}\n", "\tdigit := len(value) == 1 && value[0] >= '0' && value[0] <= '9'\n\tif n, ok := old.(int); ok && digit && n > -1<<40 && n < 1<<40 && n != 0 {\n\t\t// a digit behind a number, no need to write it out and parse it again\n\t\tvalue = strconv.Itoa(n*10 + int(value[0]-'0'))\n\t} else if old, err := fmtString(old); err != nil {\n\t\treturn 0, err\n\t} else {\n\t\tvalue = old + value\n\t}\n")],
 needs="one digit appended to a negative integer", breaks="the result is another number",
 demo=demo("cache", '''
func TestZZDemo(t *testing.T) {
	c := New()
	c.Set("a", "-12")
	c.Append("a", "3")
	if v, _ := c.Get("a"); v != "-123" {
		t.Fatal(v)
	}
}
''')),
dict(id="c05-round-off", prop="C05", pkg="cache", edits=[(CS, "\tcase int:\n\t\tf := float64(val) + increment\n", "\tcase int:\n\t\t// an integer has no digits behind the point, those of the increment are enough\n\t\tf := math.Round((float64(val)+increment)*1e6) / 1e6\n")],
 needs="an increment with more than six decimals on an integer", breaks="the digits beyond are lost",
 demo=demo("cache", '''
func TestZZDemo(t *testing.T) {
	c := New()
	c.Set("a", "1")
	if v, err := c.IncrByFloat("a", 0.0000001); v != 1+0.0000001 || err != nil {
		t.Fatal(v, err)
	}
}
''')),
dict(id="c10-hincr-new-field", prop="C10", pkg="cache", edits=[(CH, "\tif he == nil{\n\t\the = newHash()\n\t\tc.dataDict.Store(key, he)\n\t}\n\n\tv, ok := he.Load(field)\n\tif !ok{\n\t\the.set(field, strconv.Itoa(increment))\n\t\treturn increment, nil", "\tif he == nil{\n\t\the = &hashEntry{length: 1}\n\t\tc.dataDict.Store(key, he)\n\t}\n\n\tv, loaded := he.LoadOrStore(field, increment)\n\tif !loaded{\n\t\treturn increment, nil")],
 needs="HIncrBy of a new field in a hash that exists", breaks="HLen does not count the field",
 demo=demo("cache", '''
func TestZZDemo(t *testing.T) {
	c := New()
	c.HIncrBy("h", "a", 1)
	c.HIncrBy("h", "b", 1)
	if n, _ := c.HLen("h"); n != 2 {
		t.Fatal(n)
	}
}
''')),
dict(id="c11-single-precision", prop="C11", pkg="cache", edits=[(CH, "\tcase int:\n\t\tf = float64(val) + increment\n", "\tcase int:\n\t\tf = float64(float32(val)) + increment\n")],
 needs="HIncrByFloat on an integer field that is larger than 2^24", breaks="the sum is wrong",
 demo=demo("cache", '''
func TestZZDemo(t *testing.T) {
	c := New()
	c.HSet("h", "a", "16777217")
	if f, err := c.HIncrByFloat("h", "a", 1); f != 16777218 || err != nil {
		t.Fatal(f, err)
	}
}
''')),
dict(id="c15-hset-late", prop="C15", pkg="cache", edits=[(CH, "\treturn he.set(field, value), nil\n}\n\n//HGET\nfunc", "\t// the fields have their own lock\n\tc.lock.Unlock()\n\tn = he.set(field, value)\n\tc.lock.Lock()\n\n\treturn n, nil\n}\n\n//HGET\nfunc")],
 needs="HSet of two fields of one hash at the same time, or HSet while the last field is deleted", breaks="HLen is wrong, or the field is written to a hash that is gone",
 demo=demo("cache", '''
func TestZZDemo(t *testing.T) {
	for round := 0; round < 40; round++ {
		c := New()
		c.HSet("h", "f", "v")
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 2000; i++ {
					c.HSet("h", strconv.Itoa(g*2000+i), "v")
				}
			}()
		}
		wg.Wait()
		if n, _ := c.HLen("h"); n != 16001 {
			t.Fatal(n)
		}
	}
}
''', "strconv", "sync")),
dict(id="c17-psetex-in-two", prop="C17", pkg="cache", edits=[(CS, "\tc.dataDict.Store(key, tryInt64(value))\n\tc.expires(key, lifetime(expiresMs, time.Millisecond))\n", "\tval := tryInt64(value)\n\tc.dataDict.Store(key, val)\n\tc.lock.Unlock()\n\tleft := lifetime(expiresMs, time.Millisecond)\n\tc.lock.Lock()\n\tc.expires(key, left)\n")],
 needs="another client deletes and sets the key while PSetEX is between the value and its deadline", breaks="the other client's value gets the deadline",
 demo=demo("cache", '''
func TestZZDemo(t *testing.T) {
	c := New()
	const n = 4000
	var set [8][n]bool
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(2)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				c.PSetEX(strconv.Itoa(g*n+i), "v", 5000)
			}
		}()
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				k := strconv.Itoa(g*n + i)
				for end := time.Now().Add(2 * time.Millisecond); c.Del(k) == 0 && time.Now().Before(end); {
				}
				if r, _ := c.SetNX(k, "w"); r == 1 {
					v, _ := c.Get(k)
					set[g][i] = v == "w"
				}
			}
		}()
	}
	wg.Wait()
	lost := 0
	var held [8][n]bool
	for g := range set {
		for i := range set[g] {
			v, _ := c.Get(strconv.Itoa(g*n + i))
			held[g][i] = v == "w"
		}
	}
	time.Sleep(6 * time.Second)
	for g := range set {
		for i := range set[g] {
			if v, _ := c.Get(strconv.Itoa(g*n + i)); held[g][i] && v != "w" {
				lost++
			}
		}
	}
	if lost > 0 {
		t.Fatal(lost)
	}
}
''', "strconv", "sync", "time")),
dict(id="c18-shared-buffer", prop="C18", pkg="cache", edits=[(CH, "\t he.Range(func(key, value interface{}) bool {\n\t\tif field, ok := key.(string); ok{\n\t\t\tfields = append(fields, field)\n\t\t}\n\t \treturn true\n\t })\n\n\treturn fields, nil\n}", "\tlist := fieldBuffer[:0]\n\the.Range(func(key, value interface{}) bool {\n\t\tif field, ok := key.(string); ok {\n\t\t\tlist = append(list, field)\n\t\t}\n\t\treturn true\n\t})\n\n\treturn append(fields, list...), nil\n}\n\n// saves growing a slice for the hashes of usual size\nvar fieldBuffer = make([]string, 0, 64)")],
 needs="two HKeys at the same time", breaks="one returns fields of the other's hash",
 demo=demo("cache", '''
func TestZZDemo(t *testing.T) {
	c := New()
	for i := 0; i < 60; i++ {
		c.HSet("a", "a"+strconv.Itoa(i), "v")
		c.HSet("b", "b"+strconv.Itoa(i), "v")
	}
	bad := make(chan string, 2)
	for _, k := range []string{"a", "b"} {
		k := k
		go func() {
			for i := 0; i < 100000; i++ {
				l, _ := c.HKeys(k)
				for _, f := range l {
					if f[:1] != k {
						bad <- k + " has " + f
						return
					}
				}
			}
			bad <- ""
		}()
	}
	for i := 0; i < 2; i++ {
		if m := <-bad; m != "" {
			t.Fatal(m)
		}
	}
}
''', "strconv")),
dict(id="c32-push-empty", prop="C32", pkg="cache", edits=[(CM, "\t\t\tvalues = append(values, messages[i].String())\n", "\t\t\tif value := messages[i].String(); value != \"\" {\n\t\t\t\tvalues = append(values, value)\n\t\t\t}\n")],
 needs="an RPUSH of an empty element from the master", breaks="the list is shorter than the master's, or not there",
 demo=demo("cache", '''
func TestZZDemo(t *testing.T) {
	c := New()
	cmd := redis.NewBaseCommand("rpush", "l", "a", "", "b")
	HandleMessage(c, cmd.Serialize())
	if n, err := c.RPush("l", "c"); n != 4 || err != nil {
		t.Fatal(n, err)
	}
}
''', "github.com/liujiangwei/xxcache/redis")),
]
