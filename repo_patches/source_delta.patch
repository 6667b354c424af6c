From 3c76521a1bae9afd030dccd45b5174cd07759103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:56 +0000
Subject: [PATCH 01/71] fix: store only canonical number texts as numbers

Set("007") was read back as "7", "1.0" as "1", "inf" as "+Inf".
---
 cache/cachestring.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index ce49c68..be5791f 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -13,11 +13,13 @@ func (c *Cache) Set(key, value string) (string, error) {
 	return OK, nil
 }
 
+// only a text that is the canonical form of its number may be stored as that number,
+// any other text (007, 1.0, 1e3, nan, ...) would be read back differently
 func tryInt64(value string) interface{} {
-	if n, err := strconv.Atoi(value); err == nil {
+	if n, err := strconv.Atoi(value); err == nil && strconv.Itoa(n) == value {
 		// try convert string value to int
 		return n
-	} else if f, err := strconv.ParseFloat(value, 64); err == nil {
+	} else if f, err := strconv.ParseFloat(value, 64); err == nil && strconv.FormatFloat(f, 'f', -1, 64) == value {
 		// try float
 		return f
 	}
-- 
2.43.0


From 57ac4eaeac2574ed431e3d1f2635611d4aa0f9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:56 +0000
Subject: [PATCH 02/71] fix: discard the old deadline when a value is replaced

Set, GetSet and MSet kept the deadline of the previous value, so the new
value disappeared when the old one would have expired.
---
 cache/cachestring.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index be5791f..1900b51 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -10,6 +10,7 @@ func (c *Cache) Set(key, value string) (string, error) {
 	defer c.lock.Unlock()
 
 	c.dataDict.Store(key, tryInt64(value))
+	c.expires(key, 0)
 	return OK, nil
 }
 
@@ -106,6 +107,7 @@ func (c *Cache) GetSet(key, value string) (string, error) {
 	old, ok := c.get(key)
 
 	c.dataDict.Store(key, tryInt64(value))
+	c.expires(key, 0)
 
 	if !ok{
 		return "", ErrKeyNil
@@ -317,6 +319,7 @@ func (c *Cache) MSet(kv map[string]string) (ok string) {
 
 	for k, v := range kv {
 		c.dataDict.Store(k, tryInt64(v))
+		c.expires(k, 0)
 	}
 
 	return OK
-- 
2.43.0


From 6e6c828f8295eb68867f167e7277504545ca6790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:56 +0000
Subject: [PATCH 03/71] fix: SetNX, MSetNX and the counters see expired keys as
 absent

They worked on the stale value of an expired key that had not been
reclaimed yet, and the key kept its old deadline.
---
 cache/cachestring.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 1900b51..9de2abc 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -33,6 +33,9 @@ func (c *Cache) SetNX(key, value string) (int, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	// an expired value counts as absent
+	c.expired(key)
+
 	if _, loaded := c.dataDict.LoadOrStore(key, tryInt64(value)); loaded {
 		return 0, nil
 	} else {
@@ -243,6 +246,7 @@ func (c *Cache) IncrBy(key string, increment int64) (int, error) {
 }
 
 func (c *Cache) incrBy(key string, increment int64) (int, error) {
+	c.expired(key)
 	actual, ok := c.dataDict.LoadOrStore(key, increment)
 	if !ok {
 		return int(increment), nil
@@ -279,6 +283,7 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	c.expired(key)
 	actual, ok := c.dataDict.LoadOrStore(key, increment)
 	if !ok {
 		return increment, nil
@@ -332,6 +337,7 @@ func (c *Cache) MSetNX(kv map[string]string) int {
 	n := 0
 
 	for k, v := range kv {
+		c.expired(k)
 		if _, loaded := c.dataDict.LoadOrStore(k, tryInt64(v)); !loaded {
 			n++
 		}
-- 
2.43.0


From 24b5c6a69cae4d1789e700b8b32344e2152105bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:56 +0000
Subject: [PATCH 04/71] fix: MSet, MSetNX and MGet take the cache lock

They ran unlocked: not atomic, and racing with Flush and with reclaiming
of expired keys.
---
 cache/cachestring.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 9de2abc..c05b29a 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -319,8 +319,8 @@ func (c *Cache) DecrBy(key string, decrement int64) (int, error) {
 }
 
 func (c *Cache) MSet(kv map[string]string) (ok string) {
-	//c.lock.Lock()
-	//defer c.lock.Unlock()
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
 	for k, v := range kv {
 		c.dataDict.Store(k, tryInt64(v))
@@ -331,8 +331,8 @@ func (c *Cache) MSet(kv map[string]string) (ok string) {
 }
 
 func (c *Cache) MSetNX(kv map[string]string) int {
-	//c.lock.Lock()
-	//defer c.lock.Unlock()
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
 	n := 0
 
@@ -347,8 +347,8 @@ func (c *Cache) MSetNX(kv map[string]string) int {
 }
 
 func (c *Cache) MGet(keys ...string) []interface{} {
-	//c.lock.RLock()
-	//defer c.lock.RUnlock()
+	c.lock.RLock()
+	defer c.lock.RUnlock()
 
 	var values = make([]interface{}, len(keys))
 	for id, k := range keys {
-- 
2.43.0


From 30b8a08d71f0e652aa356de890f3b24871c8d0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:56 +0000
Subject: [PATCH 05/71] fix: Exists and Type lock the cache, see expiry and
 recognize hashes

Both ran unlocked, Exists counted expired keys and Type called a hash a
string.
---
 cache/cachedb.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cache/cachedb.go b/cache/cachedb.go
index b675204..26b8550 100644
--- a/cache/cachedb.go
+++ b/cache/cachedb.go
@@ -22,8 +22,11 @@ func (c *Cache) Flush() {
 }
 
 func (c *Cache) Exists(keys ...string) (n int){
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	for _, key := range keys{
-		if _, ok := c.dataDict.Load(key); ok{
+		if _, ok := c.get(key); ok{
 			n++
 		}
 	}
@@ -32,13 +35,16 @@ func (c *Cache) Exists(keys ...string) (n int){
 }
 
 func (c *Cache)Type(key string) string {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	v, ok := c.get(key)
 	if !ok{
 		return "none"
 	}
 
 	switch v.(type) {
-	case hashEntry:
+	case *hashEntry:
 		return "hash"
 	default:
 		return "string"
-- 
2.43.0


From 419ed37ffa1798bfe73711d10a4cb09bae3921d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:56 +0000
Subject: [PATCH 06/71] fix: the expiry service sweeps the deadlines, not the
 values

It interpreted every value as a deadline and removed the whole dataset on
the first tick.
---
 cache/cachecron.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache/cachecron.go b/cache/cachecron.go
index e9aaa43..ebf321e 100644
--- a/cache/cachecron.go
+++ b/cache/cachecron.go
@@ -6,7 +6,7 @@ import "time"
 func (c *Cache) cronExpire(duration time.Duration) {
 	for range time.NewTicker(duration).C{
 		c.lock.Lock()
-		c.dataDict.Range(func(key interface{}, value interface{}) bool {
+		c.expiresDict.Range(func(key interface{}, value interface{}) bool {
 			expire, ok := value.(time.Time)
 			if !ok{
 				c.expiresDict.Delete(key)
-- 
2.43.0


From 917c106e571e1242c6090fbb507221bb05e4a509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:56 +0000
Subject: [PATCH 07/71] fix: GetSet refuses a key that does not hold a string

It returned the wrong-type error but had already overwritten the hash.
---
 cache/cachestring.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index c05b29a..6be6bcd 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -108,6 +108,11 @@ func (c *Cache) GetSet(key, value string) (string, error) {
 	defer c.lock.Unlock()
 
 	old, ok := c.get(key)
+	if ok {
+		if _, err := fmtString(old); err != nil {
+			return "", err
+		}
+	}
 
 	c.dataDict.Store(key, tryInt64(value))
 	c.expires(key, 0)
-- 
2.43.0


From 728c319ac436f7395b19948553a57fc618b54cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:56 +0000
Subject: [PATCH 08/71] fix: SetRange with an empty string changes nothing

It created the key or padded the value.
---
 cache/cachestring.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 6be6bcd..666572e 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -171,6 +171,10 @@ func (c *Cache) SetRange(key string, pos int, replace string) (int, error) {
 	// key is not exist or expired
 	old, ok := c.dataDict.Load(key)
 	if !ok || c.expired(key) {
+		if replace == "" {
+			return 0, nil
+		}
+
 		str := make([]byte, pos)
 		for i := 0; i < pos; i++ {
 			str[i] = '\x00'
@@ -186,6 +190,10 @@ func (c *Cache) SetRange(key string, pos int, replace string) (int, error) {
 	if err != nil {
 		return 0, err
 	}
+	if replace == "" {
+		return len(oldStr), nil
+	}
+
 	str := []byte(oldStr)
 	for i := len(str); i < pos; i++{
 		str = append(str, '\x00')
-- 
2.43.0


From f2a615d52bef15b53bbf3ef7e92d3d7ec2553f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:56 +0000
Subject: [PATCH 09/71] fix: GetRange walks only the positions inside the
 string

A very negative start made it count through the whole integer range while
holding the lock.
---
 cache/cachestring.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 666572e..b937c00 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -232,6 +232,14 @@ func (c *Cache) GetRange(key string, start, end int) (string, error) {
 		end = len(oldStr) + end
 	}
 
+	// do not walk positions that are not in the string
+	if start < 0 {
+		start = 0
+	}
+	if end >= len(oldStr) {
+		end = len(oldStr) - 1
+	}
+
 	var str []byte
 	for i := start; i <= end; i++ {
 		if i < 0 {
-- 
2.43.0


From 66159ef23e4f575bfd3f0687a39aeebf1ff922a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:42 +0000
Subject: [PATCH 10/71] fix: the integer counters refuse to overflow

The sum silently wrapped around.
---
 cache/cache.go       |  1 +
 cache/cachestring.go | 33 ++++++++++++++++++++++++++++++++-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index cf717fb..3b551be 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -29,6 +29,7 @@ func (c *Cache) Cron() {
 
 var ErrKeyNil = errors.New("redis nil")
 var ErrWrongType = errors.New("wrong type,operation against a key holding the wrong kind of value")
+var ErrIntegerOverflow = errors.New("increment or decrement would overflow")
 var ErrOffsetOutOfRange = errors.New("offset is out of range")
 
 var OK = "OK"
diff --git a/cache/cachestring.go b/cache/cachestring.go
index b937c00..7cbbf5e 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -1,6 +1,7 @@
 package cache
 
 import (
+	"math"
 	"strconv"
 	"time"
 )
@@ -273,6 +274,12 @@ func (c *Cache) incrBy(key string, increment int64) (int, error) {
 		return int(increment), nil
 	}
 
+	if str, err := fmtString(actual); err != nil {
+		return 0, err
+	} else if addOverflows(str, increment) {
+		return 0, ErrIntegerOverflow
+	}
+
 	var n int
 	var val interface{}
 	switch t := actual.(type) {
@@ -300,6 +307,16 @@ func (c *Cache) incrBy(key string, increment int64) (int, error) {
 	return n,nil
 }
 
+// whether adding the increment to the integer written in str leaves the range of int64
+func addOverflows(str string, increment int64) bool {
+	n, err := strconv.ParseInt(str, 10, 64)
+	if err != nil {
+		return false
+	}
+
+	return (increment > 0 && n > math.MaxInt64-increment) || (increment < 0 && n < math.MinInt64-increment)
+}
+
 func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
@@ -335,8 +352,22 @@ func (c *Cache) DecrBy(key string, decrement int64) (int, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
-	return c.incrBy(key, -decrement)
+	if decrement == math.MinInt64 {
+		// -decrement does not fit in 64 bits: take the last step on its own
+		if val, ok := c.get(key); !ok {
+			return 0, ErrIntegerOverflow
+		} else if str, err := fmtString(val); err != nil {
+			return 0, err
+		} else if n, err := strconv.ParseInt(str, 10, 64); err == nil && n >= 0 {
+			return 0, ErrIntegerOverflow
+		} else if _, err := c.incrBy(key, 1); err != nil {
+			return 0, err
+		}
 
+		return c.incrBy(key, math.MaxInt64)
+	}
+
+	return c.incrBy(key, -decrement)
 }
 
 func (c *Cache) MSet(kv map[string]string) (ok string) {
-- 
2.43.0


From 2ad7d83fd48de16b8a1e76391ffc2054857fe2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:42 +0000
Subject: [PATCH 11/71] fix: the counter commands work on whatever number the
 key shows

IncrByFloat refused a key written by Incr or holding a text like 1.50, and
Incr refused a key on which IncrByFloat had reached an integer.
---
 cache/cachestring.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 7cbbf5e..ab3aca5 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -322,7 +322,7 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 	defer c.lock.Unlock()
 
 	c.expired(key)
-	actual, ok := c.dataDict.LoadOrStore(key, increment)
+	actual, ok := c.dataDict.LoadOrStore(key, tryInt64(strconv.FormatFloat(increment, 'f', -1, 64)))
 	if !ok {
 		return increment, nil
 	}
@@ -330,11 +330,26 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 	switch val := actual.(type) {
 	case float64:
 		val += increment
-		c.dataDict.Store(key, val)
+		c.dataDict.Store(key, tryInt64(strconv.FormatFloat(val, 'f', -1, 64)))
 		return val, nil
 	case int:
 		f := float64(val) + increment
-		c.dataDict.Store(key, f)
+		c.dataDict.Store(key, tryInt64(strconv.FormatFloat(f, 'f', -1, 64)))
+		return f, nil
+	case int64, string:
+		// the counters store int64, a text like 1.50 is kept as it was written
+		str, err := fmtString(val)
+		if err != nil {
+			return 0, err
+		}
+
+		f, err := strconv.ParseFloat(str, 64)
+		if err != nil {
+			return 0, ErrWrongType
+		}
+
+		f += increment
+		c.dataDict.Store(key, tryInt64(strconv.FormatFloat(f, 'f', -1, 64)))
 		return f, nil
 	default:
 		return 0, ErrWrongType
-- 
2.43.0


From c8ecffe06bb14374fd62578a48b3cd1be05ea76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:42 +0000
Subject: [PATCH 12/71] fix: the hash commands take the cache lock

They ran unlocked: two commands creating one hash lost a field, the cached
length was updated without synchronization, and they raced with Flush.
---
 cache/cachehash.go | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index b79a1ea..8f64ba2 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -51,6 +51,9 @@ func (c *Cache) getHashEntry(key string) (*hashEntry, error) {
 }
 
 func (c *Cache) HSet(key string, field string, value string) (n int, err error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -66,6 +69,9 @@ func (c *Cache) HSet(key string, field string, value string) (n int, err error)
 
 //HGET
 func (c *Cache) HSetNX(key string, field string, value string) (n int, err error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -86,6 +92,9 @@ func (c *Cache) HSetNX(key string, field string, value string) (n int, err error
 
 //HEXISTS
 func (c *Cache) HExists(key string, field string) (n int, err error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -106,6 +115,9 @@ func (c *Cache) HExists(key string, field string) (n int, err error) {
 
 //HDEL
 func (c *Cache) HDel(key string, fields ...string) (n int, err error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -131,6 +143,9 @@ func (c *Cache) HDel(key string, fields ...string) (n int, err error) {
 
 //HLEN
 func (c *Cache) HLen(key string) (n int, err error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -145,6 +160,9 @@ func (c *Cache) HLen(key string) (n int, err error) {
 
 //HSTRLEN
 func (c *Cache) HStrLen(key, field string) (n int, err error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil || he == nil {
 		return n, err
@@ -158,6 +176,9 @@ func (c *Cache) HStrLen(key, field string) (n int, err error) {
 }
 
 func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return n, err
@@ -205,6 +226,9 @@ func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
 var ErrHashValueIsNotFloat = errors.New("hash value is not a float")
 //HINCRBY
 func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, err error){
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return f, err
@@ -250,6 +274,9 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 }
 //HMSET
 func (c *Cache) HMSet(key string, fv map[string]string) (n int, err error){
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return n, err
@@ -269,6 +296,9 @@ func (c *Cache) HMSet(key string, fv map[string]string) (n int, err error){
 
 //HMGET
 func (c *Cache)HMGet(key string, fields ...string) ([]interface{}, error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
@@ -293,6 +323,9 @@ func (c *Cache)HMGet(key string, fields ...string) ([]interface{}, error) {
 
 //HKEYS
 func(c *Cache) HKeys(key string)(fields []string,err error){
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
@@ -310,6 +343,9 @@ func(c *Cache) HKeys(key string)(fields []string,err error){
 
 //HVALS
 func(c *Cache) HVals(key string)(values []string,err error){
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
@@ -327,6 +363,9 @@ func(c *Cache) HVals(key string)(values []string,err error){
 
 //HGETALL
 func(c *Cache) HGetAll(key string)(kv map[string]string,err error){
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
@@ -346,6 +385,9 @@ func(c *Cache) HGetAll(key string)(kv map[string]string,err error){
 }
 //HSCAN
 func (c *Cache) HGet(key string, field string) (value string, err error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return value, err
-- 
2.43.0


From 0fd136b704245fb2fd7bed5ce7b3a4d1c49d9d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:42 +0000
Subject: [PATCH 13/71] fix: HExists does not change the length of the hash

---
 cache/cachehash.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index 8f64ba2..380860c 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -108,8 +108,6 @@ func (c *Cache) HExists(key string, field string) (n int, err error) {
 		n = 1
 	}
 
-	he.length -= n
-
 	return n, err
 }
 
-- 
2.43.0


From b0b22be515a4f335e554c98a9f3d6c76623206b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:42 +0000
Subject: [PATCH 14/71] fix: a hash whose last field is deleted no longer
 exists

---
 cache/cachehash.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index 380860c..85e13ce 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -136,6 +136,12 @@ func (c *Cache) HDel(key string, fields ...string) (n int, err error) {
 		he.length -= n
 	}
 
+	// a hash without fields does not exist
+	if he.length == 0 {
+		c.dataDict.Delete(key)
+		c.expiresDict.Delete(key)
+	}
+
 	return n, nil
 }
 
-- 
2.43.0


From 71ca5843a61dc6e948a3ecb5c80a24083df7e603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:42 +0000
Subject: [PATCH 15/71] fix: HKeys, HVals and HGetAll of a missing key are
 empty

They dereferenced a nil hash.
---
 cache/cachehash.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index 85e13ce..b499f1e 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -335,6 +335,10 @@ func(c *Cache) HKeys(key string)(fields []string,err error){
 		return nil, err
 	}
 
+	if he == nil {
+		return nil, nil
+	}
+
 	 he.Range(func(key, value interface{}) bool {
 		if field, ok := key.(string); ok{
 			fields = append(fields, field)
@@ -355,6 +359,10 @@ func(c *Cache) HVals(key string)(values []string,err error){
 		return nil, err
 	}
 
+	if he == nil {
+		return nil, nil
+	}
+
 	he.Range(func(key, value interface{}) bool {
 		if field, ok := value.(string); ok{
 			values = append(values, field)
@@ -375,6 +383,10 @@ func(c *Cache) HGetAll(key string)(kv map[string]string,err error){
 		return nil, err
 	}
 
+	if he == nil {
+		return nil, nil
+	}
+
 	he.Range(func(key, value interface{}) bool {
 		if field, ok := key.(string); ok{
 			if v, err := fmtString(value); err != nil{
-- 
2.43.0


From fa093e90d0ea649478de799dcfa620df5ae1857e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:42 +0000
Subject: [PATCH 16/71] fix: HVals and HGetAll return every field

HVals left out numeric values; HGetAll had its error test inverted and
wrote to a nil map.
---
 cache/cachehash.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index b499f1e..621b6a5 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -364,8 +364,8 @@ func(c *Cache) HVals(key string)(values []string,err error){
 	}
 
 	he.Range(func(key, value interface{}) bool {
-		if field, ok := value.(string); ok{
-			values = append(values, field)
+		if v, err := fmtString(value); err == nil{
+			values = append(values, v)
 		}
 		return true
 	})
@@ -387,9 +387,10 @@ func(c *Cache) HGetAll(key string)(kv map[string]string,err error){
 		return nil, nil
 	}
 
+	kv = make(map[string]string)
 	he.Range(func(key, value interface{}) bool {
 		if field, ok := key.(string); ok{
-			if v, err := fmtString(value); err != nil{
+			if v, err := fmtString(value); err == nil{
 				kv[field] = v
 			}
 		}
-- 
2.43.0


From 79a59e01ab5c84f5d44e1fb7cea87da7c2e23f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:42 +0000
Subject: [PATCH 17/71] fix: HIncrBy and HIncrByFloat store the sum they return

They stored the increment, did not recognize every number a field can
hold, and HIncrBy wrapped around on overflow.
---
 cache/cachehash.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index 621b6a5..cf48096 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -201,8 +201,11 @@ func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
 
 	switch val := v.(type) {
 	case string:
+		// HSetNX keeps the text
 		if val == ""{
 			n = increment
+		}else if cur, ok := tryInt64(val).(int); ok{
+			n = cur + increment
 		}else{
 			err = ErrHashValueIsNotFloat
 		}
@@ -220,8 +223,12 @@ func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
 		err = ErrHashValueIsNotFloat
 	}
 
+	if str, e := fmtString(v); err == nil && e == nil && addOverflows(str, int64(increment)){
+		return 0, ErrIntegerOverflow
+	}
+
 	if err == nil{
-		he.set(field, strconv.Itoa(increment))
+		he.set(field, strconv.Itoa(n))
 	}
 
 	return n, err
@@ -253,9 +260,13 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 	case string:
 		if val == ""{
 			f = increment
+		}else if cur, e := strconv.ParseFloat(val, 64); e == nil{
+			f = cur + increment
 		}else{
 			err = ErrHashValueIsNotFloat
 		}
+	case float64:
+		f = val + increment
 	case int:
 		f = float64(val) + increment
 	case int32:
@@ -271,7 +282,7 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 	}
 
 	if err == nil{
-		he.set(field, strconv.FormatFloat(increment, 'f', -1, 64))
+		he.set(field, strconv.FormatFloat(f, 'f', -1, 64))
 	}
 
 	return f, err
-- 
2.43.0


From 146f1ee32697c4dff7fe9450123db751055a792c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:55 +0000
Subject: [PATCH 18/71] fix: concurrent readers do not return an expired value

A reader that had loaded the value and then looked for its deadline found
none when another reader had just reclaimed the key, and returned the
expired value.
---
 cache/cachestring.go |  8 ++++----
 cache/cacheutil.go   | 12 +++++-------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index ab3aca5..c094587 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -129,8 +129,8 @@ func (c *Cache) StrLen(key string) (int, error) {
 	c.lock.RLock()
 	defer c.lock.RUnlock()
 
-	val, ok := c.dataDict.Load(key)
-	if !ok || c.expired(key) {
+	val, ok := c.get(key)
+	if !ok {
 		return 0, nil
 	}
 
@@ -217,8 +217,8 @@ func (c *Cache) GetRange(key string, start, end int) (string, error) {
 	c.lock.RLock()
 	defer c.lock.RUnlock()
 
-	old, ok := c.dataDict.Load(key)
-	if !ok || c.expired(key) {
+	old, ok := c.get(key)
+	if !ok {
 		return "", nil
 	}
 	oldStr, err := fmtString(old)
diff --git a/cache/cacheutil.go b/cache/cacheutil.go
index 78285c0..4682ccc 100644
--- a/cache/cacheutil.go
+++ b/cache/cacheutil.go
@@ -34,15 +34,13 @@ func (c *Cache) expires(key string, duration time.Duration) {
 }
 
 func (c *Cache) get(key string) (value interface{},ok bool){
-	val, ok := c.dataDict.Load(key)
-	if !ok{
-		return val, ok
-	}
-
+	// the deadline goes first: another reader may reclaim the key meanwhile, and the value
+	// is removed before its deadline
 	if c.expired(key) {
-		val = nil
-		ok = false
+		return nil, false
 	}
 
+	val, ok := c.dataDict.Load(key)
+
 	return val, ok
 }
\ No newline at end of file
-- 
2.43.0


From 061f5adfea5762683fc593c4ddb9d7650cc92545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:19 +0000
Subject: [PATCH 19/71] fix: a 14 bit RDB length cut short is an error, not a
 panic

---
 redis/rdb/rdb.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index 8ef7a55..33329fc 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -57,8 +57,6 @@ func LoadLen(reader *bufio.Reader) (length uint64, encoded bool, err error) {
 			//l := (buf[0] & 0x3F << 8) | buf[1]
 			num := binary.BigEndian.Uint16([]byte{buf[0] & 0x3F, buf[1]})
 			length = uint64(num)
-		} else {
-			panic("failed to load BitLen14")
 		}
 	default:
 		// compare first byte
-- 
2.43.0


From 4bf8e863f664bb43ba2e59195fcd96608c95ce85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 20/71] fix: 32 and 64 bit RDB lengths are decoded

---
 redis/rdb/rdb.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index 33329fc..b22bb3a 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -64,21 +64,15 @@ func LoadLen(reader *bufio.Reader) (length uint64, encoded bool, err error) {
 		case BitLen32:
 			logrus.Infoln("BitLen32")
 			buf = make([]byte, 4)
-			if n, err := io.ReadFull(reader, buf); err == nil && n == 4 {
-				var lengthUint32 uint32
-				err = binary.Write(bytes.NewBuffer(buf), binary.LittleEndian, lengthUint32)
-				length = uint64(lengthUint32)
-			} else if n != 4 {
-				err = errors.New("failed to read 4 byte for BitLen32")
+			if _, err = io.ReadFull(reader, buf); err == nil {
+				length = uint64(binary.BigEndian.Uint32(buf))
 			}
 		case BitLen64:
 			logrus.Infoln("BitLen64")
 
 			buf = make([]byte, 8)
-			if n, err := io.ReadFull(reader, buf); err == nil && n == 8 {
-				err = binary.Write(bytes.NewBuffer(buf), binary.LittleEndian, length)
-			} else if n != 8 {
-				err = errors.New("failed to read 8 byte for BitLen64")
+			if _, err = io.ReadFull(reader, buf); err == nil {
+				length = binary.BigEndian.Uint64(buf)
 			}
 		default:
 			err = errors.New(fmt.Sprintf("Unknown length encoding %d in rdbLoadLen(), %d, %d", buf[0], BitLen32, BitLen64))
-- 
2.43.0


From 38dcac33215b4244b2e0e3097274e11e7f171bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:21 +0000
Subject: [PATCH 21/71] fix: 16 and 32 bit integer strings in an RDB are signed

---
 redis/rdb/rdb.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index b22bb3a..97d8a55 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -111,7 +111,7 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 				return str, errors.New("failed to read 2 bytes for EncInt16")
 			}
 
-			num := binary.LittleEndian.Uint16(buf)
+			num := int16(binary.LittleEndian.Uint16(buf))
 			str = fmt.Sprintf("%d", num)
 		case EncInt32:
 			// 4 byte
@@ -121,7 +121,7 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 			} else if n != 4 {
 				return str, errors.New("failed to read 4 bytes for EncInt32")
 			}
-			num := binary.LittleEndian.Uint32(buf)
+			num := int32(binary.LittleEndian.Uint32(buf))
 			//buf[0] | (buf[1] << 8) | (buf[2] << 16 | buf[3] << 24)
 			str = fmt.Sprintf("%d", num)
 		case EncLzf:
-- 
2.43.0


From 901cd9528c33d8f18f5ade4137aebba771b18675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:22 +0000
Subject: [PATCH 22/71] fix: a 32 bit integer string cut short does not end the
 process

---
 redis/rdb/rdb.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index 97d8a55..c829374 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -9,7 +9,6 @@ import (
 	"github.com/liujiangwei/xxcache/redis/lzf"
 	"github.com/sirupsen/logrus"
 	"io"
-	"log"
 	"strconv"
 	"unsafe"
 )
@@ -117,7 +116,7 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 			// 4 byte
 			var buf = make([]byte, 4)
 			if n, err := io.ReadFull(reader, buf); err != nil {
-				log.Fatal(err)
+				return str, err
 			} else if n != 4 {
 				return str, errors.New("failed to read 4 bytes for EncInt32")
 			}
-- 
2.43.0


From 9a3c5290596f8210e032fd61af3c5919bed98d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:15 +0000
Subject: [PATCH 23/71] fix: an RDB string is read completely or reported

---
 redis/rdb/rdb.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index c829374..b1d2216 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -9,6 +9,7 @@ import (
 	"github.com/liujiangwei/xxcache/redis/lzf"
 	"github.com/sirupsen/logrus"
 	"io"
+	"math"
 	"strconv"
 	"unsafe"
 )
@@ -153,8 +154,8 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 		return str, err
 	}
 
-	buf := make([]byte, length)
-	if _, err := reader.Read(buf); err != nil {
+	buf, err := readBytes(reader, length)
+	if err != nil {
 		return str, err
 	}
 	str = string(buf)
@@ -162,6 +163,20 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 	return str, err
 }
 
+// readBytes reads exactly length bytes, allocating no more than what the reader delivers
+func readBytes(reader *bufio.Reader, length uint64) ([]byte, error) {
+	if length > math.MaxInt64 {
+		return nil, errors.New("string length out of range")
+	}
+
+	buf := new(bytes.Buffer)
+	if _, err := io.CopyN(buf, reader, int64(length)); err != nil {
+		return nil, err
+	}
+
+	return buf.Bytes(), nil
+}
+
 //R_Zero = 0.0;
 //R_PosInf = 1.0/R_Zero;
 //RNegInf = -1.0/R_Zero;
-- 
2.43.0


From ff437b2b44cae181b713a606d702b35e19c98154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:16 +0000
Subject: [PATCH 24/71] fix: LZF round-trips every string and reports what does
 not decode

---
 redis/lzf/lzf.go | 36 ++++++++++++++++++++++++++++++++----
 redis/rdb/rdb.go | 10 +++++-----
 2 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/redis/lzf/lzf.go b/redis/lzf/lzf.go
index 731b30d..10b4e6e 100644
--- a/redis/lzf/lzf.go
+++ b/redis/lzf/lzf.go
@@ -5,13 +5,20 @@ package lzf
 */
 import "C"
 import (
+	"errors"
 	"unsafe"
 )
 
+// Compress returns the compressed form of str, which is always shorter than str,
+// or str itself if it can not be compressed
 func Compress(str string) string {
+	if len(str) < 2 {
+		return str
+	}
+
 	encoded := make([]byte, len(str))
 	input := []byte(str)
-	length := C.lzf_compress(unsafe.Pointer(&input[0]), C.uint(len(str)), unsafe.Pointer(&encoded[0]), C.uint(len(str)))
+	length := C.lzf_compress(unsafe.Pointer(&input[0]), C.uint(len(str)), unsafe.Pointer(&encoded[0]), C.uint(len(str)-1))
 	if length == 0 {
 		return str
 	}
@@ -19,12 +26,33 @@ func Compress(str string) string {
 	return string(encoded[0:length])
 }
 
+// DeCompress reverts Compress, length is the length of the original string
 func DeCompress(str string, length int) string {
+	if len(str) == length {
+		return str
+	}
+
+	if decoded, err := Decode(str, length); err == nil {
+		return decoded
+	}
+
+	return str
+}
+
+// the compressed form of a string is at most this much shorter
+const maxRatio = 264
+
+// Decode decompresses str to exactly length bytes
+func Decode(str string, length int) (string, error) {
+	if len(str) == 0 || length <= 0 || length/maxRatio > len(str) {
+		return "", errors.New("lzf: invalid length")
+	}
+
 	input := []byte(str)
 	var decoded = make([]byte, length)
 	dl := C.lzf_decompress(unsafe.Pointer(&input[0]), C.uint(len(input)), unsafe.Pointer(&decoded[0]), C.uint(length))
-	if dl == 0 {
-		return str
+	if int(dl) != length {
+		return "", errors.New("lzf: invalid data")
 	}
-	return string(decoded)
+	return string(decoded), nil
 }
diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index b1d2216..093c5b9 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -138,14 +138,14 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 				return str, err
 			}
 
-			var c = make([]byte, n)
-			if n, err := io.ReadFull(reader, c); err != nil {
+			c, err := readBytes(reader, n)
+			if err != nil {
 				return str, err
-			} else if n != len(c) {
-				return str, errors.New(fmt.Sprintf("failed to read [%d] bytes for LoadString EncLzf", len(c)))
 			}
 
-			str = lzf.DeCompress(string(c), int(length))
+			if str, err = lzf.Decode(string(c), int(length)); err != nil {
+				return "", err
+			}
 		default:
 			err = errors.New("failed decode string")
 		}
-- 
2.43.0


From ae60d6946d7f233bbdb2e6f107aee189df2482d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:17 +0000
Subject: [PATCH 25/71] fix: the infinities and NaN of an RDB double

---
 redis/rdb/rdb.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index 093c5b9..0fbfd5c 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -177,15 +177,9 @@ func readBytes(reader *bufio.Reader, length uint64) ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
-//R_Zero = 0.0;
-//R_PosInf = 1.0/R_Zero;
-//RNegInf = -1.0/R_Zero;
-//RNan = R_Zero/R_Zero;
-// todo
-const RZero = float64(1.0)
-const RPosInf = 1.0 / RZero
-const RNegInf = -1.0 / RZero
-const RNan = RZero / RZero
+var RPosInf = math.Inf(1)
+var RNegInf = math.Inf(-1)
+var RNan = math.NaN()
 
 func LoadDouble(reader *bufio.Reader) (f float64, err error) {
 	var length byte
-- 
2.43.0


From 729c3a3ffec8e2903b146d273895ed647caac0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 26/71] fix: binary RDB doubles are decoded

---
 redis/rdb/rdb.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index 0fbfd5c..3cf9a9e 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -215,8 +215,7 @@ func LoadBinaryDouble(reader *bufio.Reader) (f float64, err error) {
 		return f, errors.New(fmt.Sprintf("failed to load [%d] bytes for LoadBinaryDouble", int(length)))
 	}
 
-	err = binary.Write(bytes.NewBuffer(buf), binary.LittleEndian, f)
-	return f, err
+	return math.Float64frombits(binary.LittleEndian.Uint64(buf)), nil
 }
 
 const (
-- 
2.43.0


From a18e5662bb334adf1aecd33b7ea4733674ea7dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:53 +0000
Subject: [PATCH 27/71] fix: ziplist strings longer than 63 bytes

---
 redis/ziplist/ziplist.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/redis/ziplist/ziplist.go b/redis/ziplist/ziplist.go
index efe70e9..37ac888 100644
--- a/redis/ziplist/ziplist.go
+++ b/redis/ziplist/ziplist.go
@@ -93,11 +93,11 @@ func (iterator *Iterator) entry() (size, length uint32, str string) {
 		case ZipStr14b:
 			size = 2
 			//(len) = (((ptr)[0] & 0x3f) << 8) | (ptr)[1];
-			length = uint32((iterator.val[iterator.pos]&0x3f)<<8 | iterator.val[iterator.pos+1])
+			length = uint32(iterator.val[iterator.pos]&0x3f)<<8 | uint32(iterator.val[iterator.pos+1])
 		case ZipStr32b:
 			size = 5
 			pos := iterator.pos
-			length = uint32(iterator.val[pos+1]<<24 | iterator.val[pos+2]<<16 | iterator.val[pos+3]<<8 | iterator.val[pos+4])
+			length = binary.BigEndian.Uint32([]byte(iterator.val[pos+1 : pos+5]))
 		default:
 			panic("failed to decode zip list item")
 		}
@@ -125,7 +125,8 @@ func (iterator *Iterator) entry() (size, length uint32, str string) {
 	}
 
 	if length > 0 {
-		str = iterator.val[iterator.pos+1 : iterator.pos+int(length)+1]
+		start := iterator.pos + int(size)
+		str = iterator.val[start : start+int(length)]
 	}
 
 	return length, size, str
-- 
2.43.0


From 0a798e50bd69cb1f70b82ea2068bf5a4554ebdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 28/71] fix: ziplist integers are decoded to their decimal text

---
 redis/ziplist/ziplist.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/redis/ziplist/ziplist.go b/redis/ziplist/ziplist.go
index 37ac888..d0752ba 100644
--- a/redis/ziplist/ziplist.go
+++ b/redis/ziplist/ziplist.go
@@ -113,7 +113,7 @@ func (iterator *Iterator) entry() (size, length uint32, str string) {
 		case ZipInt32b:
 			length = 4
 		case ZipInt64b:
-			length = 5
+			length = 8
 		default:
 			if encoding >= ZipIntImmMin && encoding <= ZipIntImmMax {
 				val := (encoding & ZipIntImmMask) - 1
@@ -129,9 +129,23 @@ func (iterator *Iterator) entry() (size, length uint32, str string) {
 		str = iterator.val[start : start+int(length)]
 	}
 
+	if encoding >= ZipStrMask && length > 0 {
+		str = strconv.FormatInt(decodeInt(str), 10)
+	}
+
 	return length, size, str
 }
 
+// decodeInt reads a little endian signed integer of 1, 2, 3, 4 or 8 bytes
+func decodeInt(str string) (num int64) {
+	for i := len(str) - 1; i >= 0; i-- {
+		num = num<<8 | int64(str[i])
+	}
+
+	shift := uint(64 - 8*len(str))
+	return num << shift >> shift
+}
+
 const ZipIntImmMin = 0xf1
 const ZipIntImmMax = 0xfd
 const ZipIntImmMask = 0x0f
-- 
2.43.0


From e376375fe1251221885d2da4b99a5e156eeaca4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:55 +0000
Subject: [PATCH 29/71] fix: intset members are signed

---
 redis/intset/intset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redis/intset/intset.go b/redis/intset/intset.go
index cbcbc88..16c3846 100644
--- a/redis/intset/intset.go
+++ b/redis/intset/intset.go
@@ -24,7 +24,7 @@ func Load(encoded string) (set []int64) {
 			start := 8 + 2*i
 			end := 8 + 2*(i+1)
 
-			num := binary.LittleEndian.Uint16([]byte(encoded[start:end]))
+			num := int16(binary.LittleEndian.Uint16([]byte(encoded[start:end])))
 			set = append(set, int64(num))
 		}
 	case EncInt32:
@@ -32,7 +32,7 @@ func Load(encoded string) (set []int64) {
 			start := 8 + 4*i
 			end := 8 + 4*(i+1)
 
-			num := binary.LittleEndian.Uint32([]byte(encoded[start:end]))
+			num := int32(binary.LittleEndian.Uint32([]byte(encoded[start:end])))
 			set = append(set, int64(num))
 		}
 	case EncInt64:
-- 
2.43.0


From 718097a07a49a3cd446d01357781e5a6ee32cea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:56 +0000
Subject: [PATCH 30/71] fix: zipmap.Load reads every entry

---
 redis/zipmap/zipmap.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/redis/zipmap/zipmap.go b/redis/zipmap/zipmap.go
index fcee6f9..04e78bb 100644
--- a/redis/zipmap/zipmap.go
+++ b/redis/zipmap/zipmap.go
@@ -159,7 +159,7 @@ func Len(key string, value string) int {
 
 func Load(encoded string) (hash map[string]string) {
 	hash = make(map[string]string, encoded[0])
-	for i := 1; i < len(encoded)-1; i++ {
+	for i := 1; i < len(encoded)-1; {
 		kl := uint32(encoded[i])
 		i++
 		if kl >= BigLen {
@@ -178,13 +178,9 @@ func Load(encoded string) (hash map[string]string) {
 			i += 4
 		}
 
-		// value free length
+		// value free length, always 1 byte
 		vfl := uint32(encoded[i])
 		i++
-		if vfl >= BigLen {
-			vfl = binary.LittleEndian.Uint32([]byte(encoded[i : i+4]))
-			i += 4
-		}
 
 		// value
 		value := encoded[i : i+int(vl)]
-- 
2.43.0


From f20988032db12670ca91001634f000a4f25336ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:57 +0000
Subject: [PATCH 31/71] fix: zipmap.Set writes the free length that Lookup
 expects

---
 redis/zipmap/zipmap.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/redis/zipmap/zipmap.go b/redis/zipmap/zipmap.go
index 04e78bb..435011d 100644
--- a/redis/zipmap/zipmap.go
+++ b/redis/zipmap/zipmap.go
@@ -66,6 +66,8 @@ func (zm *zipMap) Set(key string, value string) error {
 		} else {
 			buf.WriteByte(uint8(len(value)))
 		}
+		// value free length
+		buf.WriteByte(0)
 		//value
 		if n, err := buf.WriteString(value); err != nil {
 			return err
@@ -103,7 +105,7 @@ func (zm *zipMap) BlobLen() int {
 }
 
 func (zm *zipMap) Lookup(key string) (n int, ok bool) {
-	for i := 1; i < len(zm.value) && zm.value[i] != End; i++ {
+	for i := 1; i < len(zm.value) && zm.value[i] != End; {
 		// key length
 		kl := int(zm.value[i])
 		i++
@@ -127,13 +129,9 @@ func (zm *zipMap) Lookup(key string) (n int, ok bool) {
 			i += 4
 		}
 
-		// value free length
+		// value free length, always 1 byte
 		vfl := int(zm.value[i])
 		i++
-		if vfl >= BigLen {
-			vfl = int(binary.LittleEndian.Uint32(zm.value[i : i+4]))
-			i += 4
-		}
 
 		// value
 		i += vl
-- 
2.43.0


From 220e787bb1cf721ba235d5c998c156a1fa50bf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:19 +0000
Subject: [PATCH 32/71] fix: a damaged ziplist, intset or zipmap is reported,
 not a panic

---
 redis/intset/intset.go   | 18 ++++++++++++++++--
 redis/replication.go     | 32 ++++++++++++++++++++++++++------
 redis/ziplist/ziplist.go | 16 ++++++++++++++--
 redis/zipmap/zipmap.go   | 18 +++++++++++++++---
 4 files changed, 71 insertions(+), 13 deletions(-)

diff --git a/redis/intset/intset.go b/redis/intset/intset.go
index 16c3846..99d2ed2 100644
--- a/redis/intset/intset.go
+++ b/redis/intset/intset.go
@@ -2,6 +2,7 @@ package intset
 
 import (
 	"encoding/binary"
+	"errors"
 )
 
 //#define INTSET_ENC_INT16 (sizeof(int16_t))
@@ -14,7 +15,14 @@ const (
 	EncInt64 = 8
 )
 
-func Load(encoded string) (set []int64) {
+// Load returns the members of an intset, or an error if it is damaged
+func Load(encoded string) (set []int64, err error) {
+	defer func() {
+		if recover() != nil {
+			set, err = nil, errors.New("invalid intset")
+		}
+	}()
+
 	encoding := binary.LittleEndian.Uint32([]byte(encoded[0:4]))
 	length := binary.LittleEndian.Uint32([]byte(encoded[4:8]))
 
@@ -43,7 +51,13 @@ func Load(encoded string) (set []int64) {
 			num := binary.LittleEndian.Uint64([]byte(encoded[start:end]))
 			set = append(set, int64(num))
 		}
+	default:
+		return nil, errors.New("invalid intset encoding")
+	}
+
+	if len(encoded) != 8+int(encoding)*int(length) {
+		return nil, errors.New("invalid intset")
 	}
 
-	return set
+	return set, nil
 }
diff --git a/redis/replication.go b/redis/replication.go
index 57142f0..33626ac 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -433,7 +433,12 @@ func (repl *Replication) Load() (err error) {
 						logrus.Warnln("failed to load TypeListQuickList value", err)
 						return err
 					}
-					args = append(args, ziplist.Load(value)...)
+					var list []string
+					if list, err = ziplist.Load(value); err != nil {
+						logrus.Warnln("failed to load TypeListQuickList ziplist", err)
+						return err
+					}
+					args = append(args, list...)
 				}
 
 				cmd := NewBaseCommand(args...)
@@ -452,7 +457,10 @@ func (repl *Replication) Load() (err error) {
 				switch opCode {
 				case rdb.TypeHashZipMap:
 					var args = []string{"hmSet", key}
-					hash := zipmap.Load(str)
+					var hash map[string]string
+					if hash, err = zipmap.Load(str); err != nil {
+						return err
+					}
 					for field, value := range hash {
 						args = append(args, field, value)
 					}
@@ -465,7 +473,10 @@ func (repl *Replication) Load() (err error) {
 					}
 				case rdb.TypeSetIntSet:
 					var args = []string{"sAdd", key}
-					set := intset.Load(str)
+					var set []int64
+					if set, err = intset.Load(str); err != nil {
+						return err
+					}
 					for _, v := range set {
 						args = append(args, strconv.Itoa(int(v)))
 					}
@@ -478,7 +489,10 @@ func (repl *Replication) Load() (err error) {
 					}
 				case rdb.TypeZSetZipList:
 					var args = []string{"zAdd", key}
-					list := ziplist.Load(str)
+					var list []string
+					if list, err = ziplist.Load(str); err != nil {
+						return err
+					}
 					for i := 0; i < len(list)/2; i++ {
 						args = append(args, list[2*i], list[2*i+1])
 					}
@@ -490,7 +504,10 @@ func (repl *Replication) Load() (err error) {
 					}
 				case rdb.TypeHashZipList:
 					var args = []string{"hmSet", key}
-					list := ziplist.Load(str)
+					var list []string
+					if list, err = ziplist.Load(str); err != nil {
+						return err
+					}
 					args = append(args, list...)
 					cmd := NewBaseCommand(args...)
 					repl.Messages <- ReplicationMessage{
@@ -500,7 +517,10 @@ func (repl *Replication) Load() (err error) {
 					}
 				case rdb.TypeListZipList:
 					var args = []string{"rPush", key}
-					list := ziplist.Load(str)
+					var list []string
+					if list, err = ziplist.Load(str); err != nil {
+						return err
+					}
 					args = append(args, list...)
 					cmd := NewBaseCommand(args...)
 					repl.Messages <- ReplicationMessage{
diff --git a/redis/ziplist/ziplist.go b/redis/ziplist/ziplist.go
index d0752ba..97328f3 100644
--- a/redis/ziplist/ziplist.go
+++ b/redis/ziplist/ziplist.go
@@ -2,6 +2,7 @@ package ziplist
 
 import (
 	"encoding/binary"
+	"errors"
 	"strconv"
 )
 
@@ -159,12 +160,23 @@ func (iterator *Iterator) decode() uint8 {
 	return encoding
 }
 
-func Load(encoded string) (list []string) {
+// Load returns the entries of a ziplist, or an error if it is damaged
+func Load(encoded string) (list []string, err error) {
+	defer func() {
+		if recover() != nil {
+			list, err = nil, errors.New("invalid ziplist")
+		}
+	}()
+
 	iter := newIterator(encoded)
 
 	for str, ok := iter.Next(); ok; str, ok = iter.Next() {
 		list = append(list, str)
 	}
 
-	return list
+	if iter.pos != len(encoded)-1 {
+		return nil, errors.New("invalid ziplist")
+	}
+
+	return list, nil
 }
diff --git a/redis/zipmap/zipmap.go b/redis/zipmap/zipmap.go
index 435011d..d8b5735 100644
--- a/redis/zipmap/zipmap.go
+++ b/redis/zipmap/zipmap.go
@@ -155,9 +155,17 @@ func Len(key string, value string) int {
 	return l
 }
 
-func Load(encoded string) (hash map[string]string) {
+// Load returns the fields of a zipmap, or an error if it is damaged
+func Load(encoded string) (hash map[string]string, err error) {
+	defer func() {
+		if recover() != nil {
+			hash, err = nil, errors.New("invalid zipmap")
+		}
+	}()
+
 	hash = make(map[string]string, encoded[0])
-	for i := 1; i < len(encoded)-1; {
+	i := 1
+	for i < len(encoded)-1 {
 		kl := uint32(encoded[i])
 		i++
 		if kl >= BigLen {
@@ -189,5 +197,9 @@ func Load(encoded string) (hash map[string]string) {
 		hash[key] = value
 	}
 
-	return hash
+	if i != len(encoded)-1 || encoded[i] != End {
+		return nil, errors.New("invalid zipmap")
+	}
+
+	return hash, nil
 }
-- 
2.43.0


From f21e3a41877ebb7d6cf461a0b0bbf681331e418f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:12 +0000
Subject: [PATCH 33/71] fix: a reply is read completely and checked, however it
 is fragmented

---
 redis/conn.go | 58 ++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index f74639b..e7fa2ac 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"net"
 	"strconv"
+	"strings"
 	"time"
 )
 
@@ -96,11 +97,28 @@ func (c Conn) readBulkString(length int) string {
 }
 
 func (c Conn) discardEof() error {
-	_, _, err := c.Reader.ReadLine()
+	line, err := c.readLine()
+	if err == nil && line != "" {
+		err = errors.New("bulk string is longer than its length")
+	}
 
 	return err
 }
 
+// readLine reads up to the end of the line and returns it without the end
+func (c Conn) readLine() (string, error) {
+	line, err := c.Reader.ReadString('\n')
+	if err != nil {
+		return "", err
+	}
+
+	if !strings.HasSuffix(line, MessageEOF) {
+		return "", errors.New("line does not end with CRLF")
+	}
+
+	return strings.TrimSuffix(line, MessageEOF), nil
+}
+
 // save message content to io reader
 func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 	protocol, err := c.readProtocol()
@@ -182,12 +200,12 @@ func (c Conn) readMessage() (Message, error) {
 	switch protocol {
 	case ProtocolBulkString:
 		// $1
-		bs, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
 		// get length
-		length, err := strconv.Atoi(string(bs))
+		length, err := strconv.Atoi(line)
 		if err != nil {
 			return nil, err
 		}
@@ -196,9 +214,13 @@ func (c Conn) readMessage() (Message, error) {
 			return NilMessage{}, nil
 		}
 
+		if length < 0 {
+			return nil, errors.New("invalid bulk string length")
+		}
+
 		// read data
-		var data = make([]byte, length)
-		if _, err := c.Reader.Read(data); err != nil {
+		var data strings.Builder
+		if _, err := io.CopyN(&data, c.Reader, int64(length)); err != nil {
 			return nil, err
 		}
 
@@ -206,43 +228,51 @@ func (c Conn) readMessage() (Message, error) {
 			return nil, err
 		}
 
-		msg := NewBulkStringMessage(string(data))
+		msg := NewBulkStringMessage(data.String())
 
 		return msg, nil
 	case ProtocolSimpleString:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
 
-		return SimpleStringMessage(string(line)), nil
+		return SimpleStringMessage(line), nil
 	case ProtocolError:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
-		return ErrorMessage(string(line)), nil
+		return ErrorMessage(line), nil
 
 	case ProtocolInt:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
-		if number, err := strconv.Atoi(string(line)); err != nil {
+		if number, err := strconv.Atoi(line); err != nil {
 			return nil, err
 		} else {
 			return IntMessage(number), nil
 		}
 	case ProtocolArray:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
-		number, err := strconv.Atoi(string(line))
+		number, err := strconv.Atoi(line)
 		if err != nil {
 			return nil, err
 		}
 
+		if number < -1 {
+			return nil, errors.New("invalid array length")
+		}
+
+		if number == -1 {
+			return NilMessage{}, nil
+		}
+
 		var messages ArrayMessage
 		for i := 0; i < number; i++ {
 			if message, err := c.readMessage(); err != nil {
-- 
2.43.0


From 094d42fc88cdd6f9787ffdb543adacb0c415149f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:13 +0000
Subject: [PATCH 34/71] fix: a snapshot that can not be written completely is
 reported

---
 redis/conn.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/redis/conn.go b/redis/conn.go
index e7fa2ac..a5ac537 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -145,6 +145,10 @@ func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 			return ProtocolBulkString, 0, err
 		}
 
+		if length < 0 {
+			return ProtocolBulkString, 0, errors.New("invalid bulk string length")
+		}
+
 		for i := 0; i < length; i++ {
 			b, err := c.Reader.ReadByte()
 			if err != nil {
@@ -155,7 +159,7 @@ func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 			}
 		}
 
-		return ProtocolBulkString, length, nil
+		return ProtocolBulkString, length, buf.Flush()
 	case ProtocolSimpleString:
 		line, _, err := c.Reader.ReadLine()
 		if err != nil {
-- 
2.43.0


From f58bb444aa640529b002bf2189f8fc5edc4f3075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:14 +0000
Subject: [PATCH 35/71] fix: sync skips keep-alive newlines and reports a
 refusal

---
 redis/replication.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/redis/replication.go b/redis/replication.go
index 33626ac..23d6f47 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -145,8 +145,26 @@ func (repl *Replication) sync() (err error) {
 		return errors.New("failed to open rdb file," + err.Error())
 	}
 
+	defer func() {
+		_ = fp.Close()
+	}()
+
+	// the master keeps the connection alive with newlines until the payload is ready
+	for {
+		b, err := repl.conn.Reader.Peek(1)
+		if err != nil {
+			return errors.New("sync error," + err.Error())
+		}
+		if b[0] != '\n' {
+			break
+		}
+		_, _ = repl.conn.Reader.Discard(1)
+	}
+
 	if protocol, length, err := repl.conn.ReadWithWriter(fp); err != nil {
 		return errors.New("failed to save rdb file," + err.Error())
+	} else if protocol != ProtocolBulkString {
+		return errors.New("sync error, the master did not send a snapshot")
 	} else {
 		logrus.Infoln("redis rdb file", protocol, length, repl.RdbFile)
 	}
-- 
2.43.0


From 9e429420eaeb43a91cc481320776334776e9544d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:16 +0000
Subject: [PATCH 36/71] fix: a reply of the wrong kind is an error

---
 redis/command.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/redis/command.go b/redis/command.go
index 7346c68..6a6ea70 100644
--- a/redis/command.go
+++ b/redis/command.go
@@ -41,7 +41,12 @@ type StringCommand struct {
 }
 
 func (cmd *StringCommand) Parse(message Message) {
-	cmd.Val = message.String()
+	switch message.(type) {
+	case *bulkStringMessage, SimpleStringMessage:
+		cmd.Val = message.String()
+	default:
+		cmd.Err = errors.New("failed to parse response")
+	}
 }
 
 func (cmd *StringCommand) Result() (string, error) {
@@ -71,6 +76,8 @@ type IntCommand struct {
 func (i *IntCommand) Parse(message Message) {
 	if message, ok := message.(IntMessage); ok {
 		i.Val = int(message)
+	} else {
+		i.Err = errors.New("failed to parse response")
 	}
 }
 
@@ -135,5 +142,7 @@ func (i *InterfaceArrayCommand) Parse(message Message) {
 				i.Val = append(i.Val, m.String())
 			}
 		}
+	} else {
+		i.Err = errors.New("failed to parse response")
 	}
 }
-- 
2.43.0


From 7918dbff72deb9b1291c84c53c63bcaeb0131971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:17 +0000
Subject: [PATCH 37/71] fix: IncrByFloat returns the number the server replied

---
 redis/command.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/redis/command.go b/redis/command.go
index 6a6ea70..d0c70d1 100644
--- a/redis/command.go
+++ b/redis/command.go
@@ -59,7 +59,15 @@ type FloatCommand struct {
 }
 
 func (cmd *FloatCommand) Parse(message Message) {
-	if val, err := strconv.ParseFloat(message.String(), 64); err != nil {
+	bulk, ok := message.(*bulkStringMessage)
+	if !ok {
+		cmd.Err = errors.New("failed to parse response")
+		return
+	}
+
+	if val, err := strconv.ParseFloat(bulk.String(), 64); err != nil {
+		cmd.Err = err
+	} else {
 		cmd.Val = val
 	}
 }
-- 
2.43.0


From 4d09fb372badce5228cbd6f4b60f8e1fd266b3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:19 +0000
Subject: [PATCH 38/71] fix: commands replying OK return OK

---
 redis/command.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redis/command.go b/redis/command.go
index d0c70d1..a8a0b00 100644
--- a/redis/command.go
+++ b/redis/command.go
@@ -123,11 +123,15 @@ func (cmd *OKCommand) Parse(message Message) {
 	m, ok := message.(SimpleStringMessage)
 	if !ok {
 		cmd.Err = errors.New("failed parse redis data")
+		return
 	}
 
 	if m.String() != "OK" {
 		cmd.Err = errors.New(m.String())
+		return
 	}
+
+	cmd.Val = m.String()
 }
 
 func (cmd *OKCommand) Result() (string, error) {
-- 
2.43.0


From 24176263e8a056fe0425b2909c8d4333f8ab90e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:20 +0000
Subject: [PATCH 39/71] fix: SetNX returns the integer the server replied

---
 redis/redis.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/redis/redis.go b/redis/redis.go
index 4d99e21..a5f1176 100644
--- a/redis/redis.go
+++ b/redis/redis.go
@@ -91,11 +91,14 @@ func (redis *Redis) Select(index int) (string, error) {
 }
 
 func (redis *Redis) SetNX(key, value string) (string, error) {
-	rc := OKCommand{
+	rc := IntCommand{
 		BaseCommand: NewBaseCommand("SetNX", key, value),
 	}
 	redis.process(&rc)
-	return rc.Result()
+	if rc.Err != nil {
+		return "", rc.Err
+	}
+	return strconv.Itoa(rc.Val), nil
 }
 
 func (redis *Redis) SetEX(key, value string, expires uint64) (string, error) {
-- 
2.43.0


From 3cc2efd33334a46f4d04a1351923e7bfcf9e0b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:21 +0000
Subject: [PATCH 40/71] fix: SetEX, PSetEX and IncrBy send their own command

---
 redis/redis.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redis/redis.go b/redis/redis.go
index a5f1176..021721e 100644
--- a/redis/redis.go
+++ b/redis/redis.go
@@ -103,7 +103,7 @@ func (redis *Redis) SetNX(key, value string) (string, error) {
 
 func (redis *Redis) SetEX(key, value string, expires uint64) (string, error) {
 	rc := OKCommand{
-		BaseCommand: NewBaseCommand("SetNX", key, value, strconv.FormatUint(expires, 10)),
+		BaseCommand: NewBaseCommand("SetEX", key, strconv.FormatUint(expires, 10), value),
 	}
 	redis.process(&rc)
 	return rc.Result()
@@ -111,7 +111,7 @@ func (redis *Redis) SetEX(key, value string, expires uint64) (string, error) {
 
 func (redis *Redis) PSetEX(key, value string, expiresMs uint64) (string, error) {
 	rc := OKCommand{
-		BaseCommand: NewBaseCommand("SetNX", key, value, strconv.FormatUint(expiresMs, 10)),
+		BaseCommand: NewBaseCommand("PSetEX", key, strconv.FormatUint(expiresMs, 10), value),
 	}
 	redis.process(&rc)
 	return rc.Result()
@@ -178,7 +178,7 @@ func (redis *Redis) Incr(key string) (int, error) {
 
 func (redis *Redis) IncrBy(key string, increment int) (int, error) {
 	rc := IntCommand{
-		BaseCommand: NewBaseCommand("Incr", key, strconv.Itoa(increment)),
+		BaseCommand: NewBaseCommand("IncrBy", key, strconv.Itoa(increment)),
 	}
 	redis.process(&rc)
 
-- 
2.43.0


From 6af945e7570a21508e22aa55c40d007036b4e577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:07 +0000
Subject: [PATCH 41/71] fix: bulk strings end with exactly one CRLF

---
 redis/conn.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index a5ac537..ef8d951 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -97,12 +97,16 @@ func (c Conn) readBulkString(length int) string {
 }
 
 func (c Conn) discardEof() error {
-	line, err := c.readLine()
-	if err == nil && line != "" {
-		err = errors.New("bulk string is longer than its length")
+	var eof [len(MessageEOF)]byte
+	if _, err := io.ReadFull(c.Reader, eof[:]); err != nil {
+		return err
+	}
+
+	if string(eof[:]) != MessageEOF {
+		return errors.New("bulk string does not end with CRLF")
 	}
 
-	return err
+	return nil
 }
 
 // readLine reads up to the end of the line and returns it without the end
@@ -134,13 +138,13 @@ func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 
 	switch protocol {
 	case ProtocolBulkString:
-		bs, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return ProtocolBulkString, 0, err
 		}
 
 		// get length
-		length, err := strconv.Atoi(string(bs))
+		length, err := strconv.Atoi(line)
 		if err != nil {
 			return ProtocolBulkString, 0, err
 		}
-- 
2.43.0


From b4b05d842e3d3d1976ca894b5748c63512e2525f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:09 +0000
Subject: [PATCH 42/71] fix: a failed dial costs the pool no capacity and no
 lock

---
 redis/pool.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/redis/pool.go b/redis/pool.go
index 13943ca..a31aeab 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -3,19 +3,17 @@ package redis
 import (
 	"context"
 	"errors"
-	"sync"
 )
 
 const defaultPoolCapacity = 20
 
 type Pool struct {
 	capacity         int // max connection nums
-	size             int // current size
 	connC            chan *Conn
+	slots            chan struct{} // one for every open connection
 	addr             string
 	connOpenHandler  []func(conn *Conn) error
 	connCloseHandler []func(conn *Conn) error
-	l                sync.Mutex
 }
 
 func (pool *Pool) AddConnOpenHandler(handler func(conn *Conn) error) {
@@ -31,6 +29,7 @@ func (pool *Pool) Init(capacity int, addr string) {
 	}
 
 	pool.connC = make(chan *Conn, pool.capacity)
+	pool.slots = make(chan struct{}, pool.capacity)
 }
 
 func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
@@ -38,17 +37,6 @@ func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 	case c := <-pool.connC:
 		return c, nil
 	default:
-		// no conn available, try create new conn
-		pool.l.Lock()
-		if pool.size < pool.capacity {
-			conn, err := pool.create()
-			if err != nil {
-				return nil, err
-			}
-			pool.size++
-			pool.connC <- conn
-		}
-		pool.l.Unlock()
 	}
 
 	select {
@@ -56,6 +44,14 @@ func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 		return nil, errors.New("no connection available")
 	case c := <-pool.connC:
 		return c, nil
+	case pool.slots <- struct{}{}:
+		// no conn available, try create new conn
+		conn, err := pool.create()
+		if err != nil {
+			<-pool.slots
+			return nil, err
+		}
+		return conn, nil
 	}
 }
 
-- 
2.43.0


From e99b7ee5f3978f1a462cba28c756b0ffd2de2b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:10 +0000
Subject: [PATCH 43/71] fix: a connection whose open handler fails is closed

---
 redis/pool.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redis/pool.go b/redis/pool.go
index a31aeab..03a3808 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -62,7 +62,8 @@ func (pool Pool) create() (conn *Conn, err error) {
 
 	for _, handler := range pool.connOpenHandler {
 		if err := handler(conn); err != nil {
-			return conn, err
+			_ = conn.Close()
+			return nil, err
 		}
 	}
 
-- 
2.43.0


From 888bc243e20d91cfd5494e681a3534d4c7962f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:12 +0000
Subject: [PATCH 44/71] fix: Pool.Close closes the idle connections and returns

---
 redis/pool.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/redis/pool.go b/redis/pool.go
index 03a3808..a64f476 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -76,21 +76,25 @@ func (pool Pool) Put(conn *Conn) {
 	}
 }
 
-//Close close all conn opened in the pool
-func (pool Pool) Close() error {
-	for conn := range pool.connC {
-		for _, handler := range pool.connCloseHandler {
-			if err := handler(conn); err != nil {
-				return err
+//Close close all idle conn opened in the pool
+func (pool Pool) Close() (err error) {
+	for {
+		select {
+		case conn := <-pool.connC:
+			for _, handler := range pool.connCloseHandler {
+				if e := handler(conn); e != nil && err == nil {
+					err = e
+				}
 			}
-		}
 
-		if err := conn.Close(); err != nil {
+			if e := conn.Close(); e != nil && err == nil {
+				err = e
+			}
+			<-pool.slots
+		default:
 			return err
 		}
 	}
-
-	return nil
 }
 
 func (pool *Pool) ExecCommand(ctx context.Context, command Command) {
-- 
2.43.0


From baee2dd3a5f3a622ed767132b7f3d9fa973ae27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:13 +0000
Subject: [PATCH 45/71] fix: a connection that failed is not reused

---
 redis/conn.go | 16 +++++++++++++---
 redis/pool.go | 12 ++++++++++--
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index ef8d951..e632d02 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -19,6 +19,7 @@ type Conn struct {
 	Timeout      time.Duration
 	ReadTimeout  time.Duration
 	WriteTimeout time.Duration
+	broken       bool // the stream is out of step, do not use it for another command
 }
 
 func (c *Conn) WithTimeout(duration time.Duration) {
@@ -34,17 +35,26 @@ func (c *Conn) WithWriteTimeout(duration time.Duration) {
 }
 
 func (c *Conn) Recv() (Message, error) {
-	return c.readMessage()
+	message, err := c.readMessage()
+	if err != nil {
+		c.broken = true
+	}
+
+	return message, err
 }
 
 func (c *Conn) Send(message Message) error {
 	_, err := c.Writer.Write([]byte(message.Serialize()))
 
+	if err == nil {
+		err = c.Writer.Flush()
+	}
+
 	if err != nil {
-		return err
+		c.broken = true
 	}
 
-	return c.Writer.Flush()
+	return err
 }
 
 func (c *Conn) SendAndWaitReply(message Message) (Message, error) {
diff --git a/redis/pool.go b/redis/pool.go
index a64f476..2b34510 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -71,9 +71,17 @@ func (pool Pool) create() (conn *Conn, err error) {
 }
 
 func (pool Pool) Put(conn *Conn) {
-	if conn != nil {
-		pool.connC <- conn
+	if conn == nil {
+		return
 	}
+
+	if conn.broken {
+		_ = conn.Close()
+		<-pool.slots
+		return
+	}
+
+	pool.connC <- conn
 }
 
 //Close close all idle conn opened in the pool
-- 
2.43.0


From b53cc04058e413e9ecfa876ddf590cdb9e949686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:14 +0000
Subject: [PATCH 46/71] fix: only a ping is consumed as a keep-alive

---
 redis/replication.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index 23d6f47..92babe1 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -82,7 +82,8 @@ func (repl *Replication) WaitForMessage() {
 			return
 		}
 
-		if strings.HasPrefix(strings.ToLower(message.String()), "ping") {
+		command, ok := message.(ArrayMessage)
+		if ok && len(command) == 1 && strings.ToLower(command[0].String()) == "ping" {
 			repl.lastPing = time.Now()
 			continue
 		}
-- 
2.43.0


From 0c2b74a39265603dcf0427befe07d3abd9894011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:16 +0000
Subject: [PATCH 47/71] fix: streamed commands carry the selected database

---
 redis/replication.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index 92babe1..2fca39c 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -74,6 +74,7 @@ func (repl *Replication) SyncWithRedis() error {
 }
 
 func (repl *Replication) WaitForMessage() {
+	database := 0
 	for {
 		message, err := repl.conn.Recv()
 		if err != nil {
@@ -88,8 +89,14 @@ func (repl *Replication) WaitForMessage() {
 			continue
 		}
 
+		if ok && len(command) == 2 && strings.ToLower(command[0].String()) == "select" {
+			if index, err := strconv.Atoi(command[1].String()); err == nil {
+				database = index
+			}
+		}
+
 		repl.Messages <- ReplicationMessage{
-			Database: 0,
+			Database: database,
 			Message:  message,
 			Offset:   0,
 		}
-- 
2.43.0


From b2ed8578c7a46b0e83259ff011658b7d13ca774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:17 +0000
Subject: [PATCH 48/71] fix: a file without the RDB signature is refused

---
 redis/replication.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index 2fca39c..61a6aea 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -206,9 +206,12 @@ func (repl *Replication) Load() (err error) {
 
 	buf := bufio.NewReader(file)
 	var version = make([]byte, 9)
-	if _, err = buf.Read(version); err != nil {
+	if _, err = io.ReadFull(buf, version); err != nil {
 		return err
 	}
+	if _, err = strconv.Atoi(string(version[5:])); err != nil || string(version[:5]) != "REDIS" {
+		return errors.New("wrong signature in rdb file")
+	}
 	// start to load rdb file
 	var opCode uint
 	var expiresTime uint64
-- 
2.43.0


From 6e20dc1dd13dcf2083e5a0402f5b418b25bf582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:19 +0000
Subject: [PATCH 49/71] fix: a list keeps its order when it is loaded

---
 redis/replication.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index 61a6aea..11c5991 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -204,6 +204,10 @@ func (repl *Replication) Load() (err error) {
 		return errors.New("failed to open rdb file," + err.Error())
 	}
 
+	defer func() {
+		_ = file.Close()
+	}()
+
 	buf := bufio.NewReader(file)
 	var version = make([]byte, 9)
 	if _, err = io.ReadFull(buf, version); err != nil {
@@ -344,7 +348,7 @@ func (repl *Replication) Load() (err error) {
 				}
 
 				var value string
-				var args = []string{"lPush", key}
+				var args = []string{"rPush", key}
 				for ; length > 0; length-- {
 					if value, err = rdb.LoadString(buf); err != nil {
 						logrus.Warnln("failed to load TypeList value", err)
-- 
2.43.0


From 846d82683adb70642446f31d51a3717ecf50f93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:20 +0000
Subject: [PATCH 50/71] fix: a hash is loaded as a hash

---
 redis/replication.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index 11c5991..66a69dc 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -431,7 +431,7 @@ func (repl *Replication) Load() (err error) {
 					return err
 				}
 
-				var args = []string{"zAdd", key}
+				var args = []string{"hmSet", key}
 				var field, value string
 				for ; length > 0; length-- {
 					if field, err = rdb.LoadString(buf); err != nil {
-- 
2.43.0


From 51bb0579562a281f2237e19029e04c208fb91245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:22 +0000
Subject: [PATCH 51/71] fix: zAdd takes the score before the member

---
 redis/replication.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/redis/replication.go b/redis/replication.go
index 66a69dc..11f97dc 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -402,7 +402,6 @@ func (repl *Replication) Load() (err error) {
 						logrus.Warnln("failed to load TypeZSet, TypeZSet2 value", err)
 						return err
 					}
-					args = append(args, value)
 					if opCode == rdb.TypeZSet2 {
 						if score, err = rdb.LoadBinaryDouble(buf); err != nil {
 							logrus.Warnln("failed to load TypeZSet, TypeZSet2 value TypeZSet2", err)
@@ -415,7 +414,7 @@ func (repl *Replication) Load() (err error) {
 						}
 					}
 
-					args = append(args, strconv.FormatFloat(score, 'f', -1, 64))
+					args = append(args, strconv.FormatFloat(score, 'f', -1, 64), value)
 				}
 
 				cmd := NewBaseCommand(args...)
@@ -527,7 +526,7 @@ func (repl *Replication) Load() (err error) {
 						return err
 					}
 					for i := 0; i < len(list)/2; i++ {
-						args = append(args, list[2*i], list[2*i+1])
+						args = append(args, list[2*i+1], list[2*i])
 					}
 					cmd := NewBaseCommand(args...)
 					repl.Messages <- ReplicationMessage{
-- 
2.43.0


From be229bb09625722af63b2a4ad176f0456fe34646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:23 +0000
Subject: [PATCH 52/71] fix: a loaded deadline is an absolute time in
 milliseconds

---
 redis/replication.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redis/replication.go b/redis/replication.go
index 11f97dc..cafd460 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -232,7 +232,7 @@ func (repl *Replication) Load() (err error) {
 			if _, err = io.ReadFull(buf, expireS); err != nil {
 				return err
 			}
-			expiresTime = uint64(binary.LittleEndian.Uint32(expireS) * 1000)
+			expiresTime = uint64(binary.LittleEndian.Uint32(expireS)) * 1000
 		case rdb.OpCodeExpireTimeMs:
 			var milliTime = make([]byte, 8)
 			if _, err = io.ReadFull(buf, milliTime); err != nil {
@@ -579,7 +579,7 @@ func (repl *Replication) Load() (err error) {
 			}
 
 			if expiresTime > 0 {
-				args := []string{"pExpire", key, strconv.Itoa(int(expiresTime))}
+				args := []string{"pExpireAt", key, strconv.Itoa(int(expiresTime))}
 				cmd := NewBaseCommand(args...)
 				repl.Messages <- ReplicationMessage{
 					Database: repl.database,
-- 
2.43.0


From 74014c53cbd2da7696634a014d08e6a79a194889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:25 +0000
Subject: [PATCH 53/71] fix: the empty key is loaded like any other

---
 redis/replication.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/redis/replication.go b/redis/replication.go
index cafd460..015a279 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -320,9 +320,6 @@ func (repl *Replication) Load() (err error) {
 			if key, err = rdb.LoadString(buf); err != nil {
 				logrus.Warnln("failed to load key", err)
 				return err
-			} else if key == "" {
-				logrus.Warnln("failed to load key, key is empty", err)
-				return errors.New("empty key")
 			}
 
 			// opCode is object type
-- 
2.43.0


From 29b978dc98a8ec72ae368f5cc1cc6f61f58ebb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:26 +0000
Subject: [PATCH 54/71] fix: a value type that is not supported is reported

---
 redis/replication.go | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/redis/replication.go b/redis/replication.go
index 015a279..f1ed3ca 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -559,20 +559,11 @@ func (repl *Replication) Load() (err error) {
 					}
 				}
 			case rdb.TypeStreamListPacks:
-				var length uint64
-				if length, _, err = rdb.LoadLen(buf); err != nil {
-					return err
-				}
-
-				for ; length > 0; length-- {
-					//if value, Err = rdb.LoadString(buf); Err != nil {
-					//	return Err
-					//}
-					//logrus.Infoln("TypeListQuickList", key, value)
-				}
-				err = errors.New("TypeStreamListPacks unsupported now")
+				return errors.New("TypeStreamListPacks unsupported now")
 			case rdb.TypeModule, rdb.TypeModule2:
-				err = errors.New("TypeModule TypeModule2 unsupported now")
+				return errors.New("TypeModule TypeModule2 unsupported now")
+			default:
+				return errors.New("unknown object type " + strconv.Itoa(int(opCode)))
 			}
 
 			if expiresTime > 0 {
-- 
2.43.0


From 52c337fcfc3210d6ee27576661748977e3b0b8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:29 +0000
Subject: [PATCH 55/71] fix: RPush appends to the list instead of panicking

---
 cache/cachedb.go   |  2 ++
 cache/cachelist.go | 20 +++++++++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/cache/cachedb.go b/cache/cachedb.go
index 26b8550..4b6b155 100644
--- a/cache/cachedb.go
+++ b/cache/cachedb.go
@@ -46,6 +46,8 @@ func (c *Cache)Type(key string) string {
 	switch v.(type) {
 	case *hashEntry:
 		return "hash"
+	case *ListEntry:
+		return "list"
 	default:
 		return "string"
 	}
diff --git a/cache/cachelist.go b/cache/cachelist.go
index f1277e6..faa6005 100644
--- a/cache/cachelist.go
+++ b/cache/cachelist.go
@@ -23,7 +23,25 @@ func (c *Cache) LPushX(key string, values ...string) (int, error) {
 }
 
 func (c *Cache) RPush(key string, values ...string) (int, error) {
-	panic("implement me")
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
+	entry := &ListEntry{}
+	if v, ok := c.get(key); ok {
+		if entry, ok = v.(*ListEntry); !ok {
+			return 0, ErrWrongType
+		}
+	}
+
+	for _, value := range values {
+		entry.AppendTail(value)
+	}
+
+	if len(entry.val) > 0 {
+		c.dataDict.Store(key, entry)
+	}
+
+	return len(entry.val), nil
 }
 
 func (c *Cache) RPushX(key string, values ...string) (int, error) {
-- 
2.43.0


From a2ad1b5692784883e3045195e14a998303e62e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:30 +0000
Subject: [PATCH 56/71] fix: replicated commands are checked and hmset is
 applied

---
 cache/message.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/cache/message.go b/cache/message.go
index d915d1f..8561e30 100644
--- a/cache/message.go
+++ b/cache/message.go
@@ -16,11 +16,22 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 		return errors.New("empty message")
 	}
 
+	for _, m := range messages {
+		if _, isNil := m.(redis.NilMessage); isNil || m.Protocol() == redis.ProtocolArray || m.Protocol() == redis.ProtocolError {
+			return errors.New("error redis message, need an array of strings")
+		}
+	}
+
 	switch strings.ToLower(messages[0].String()) {
 	case "set":
+		// a set with options is not supported
+		if len(messages) != 3 {
+			return errors.New("set command args error")
+		}
+
 		_, err = cache.Set(messages[1].String(), messages[2].String())
 	case "rpush":
-		if len(messages) < 2 {
+		if len(messages) < 3 {
 			return errors.New("rpush command args error")
 		}
 
@@ -30,10 +41,15 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 		}
 		_, err = cache.RPush(messages[1].String(), values...)
 	case "hmset":
-		if len(messages) < 2 {
+		if len(messages) < 4 || len(messages)%2 != 0 {
 			return errors.New("hmset command args error")
 		}
 
+		fv := make(map[string]string, len(messages)/2-1)
+		for i := 2; i < len(messages); i += 2 {
+			fv[messages[i].String()] = messages[i+1].String()
+		}
+		_, err = cache.HMSet(messages[1].String(), fv)
 	default:
 		return errors.New("unknown handled command," + message.Serialize())
 	}
-- 
2.43.0


From b0c24df18af98c102532077be3762f81c9cc8ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:31 +0000
Subject: [PATCH 57/71] fix: a command that can not be applied does not leave
 old values behind

---
 cache/message.go | 54 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/cache/message.go b/cache/message.go
index 8561e30..e915ee2 100644
--- a/cache/message.go
+++ b/cache/message.go
@@ -3,6 +3,7 @@ package cache
 import (
 	"errors"
 	"github.com/liujiangwei/xxcache/redis"
+	"strconv"
 	"strings"
 )
 
@@ -16,6 +17,15 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 		return errors.New("empty message")
 	}
 
+	defer func() {
+		if err != nil {
+			// what the command did to its keys is unknown, do not serve their old values
+			for _, key := range commandKeys(messages) {
+				cache.Del(key)
+			}
+		}
+	}()
+
 	for _, m := range messages {
 		if _, isNil := m.(redis.NilMessage); isNil || m.Protocol() == redis.ProtocolArray || m.Protocol() == redis.ProtocolError {
 			return errors.New("error redis message, need an array of strings")
@@ -50,9 +60,53 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 			fv[messages[i].String()] = messages[i+1].String()
 		}
 		_, err = cache.HMSet(messages[1].String(), fv)
+	case "del", "unlink":
+		if len(messages) < 2 {
+			return errors.New("del command args error")
+		}
+
+		for _, key := range messages[1:] {
+			cache.Del(key.String())
+		}
+	case "flushdb", "flushall", "swapdb":
+		cache.Flush()
 	default:
 		return errors.New("unknown handled command," + message.Serialize())
 	}
 
 	return err
 }
+
+// commandKeys returns the keys a command may write to
+func commandKeys(messages redis.ArrayMessage) (keys []string) {
+	var args []string
+	for _, m := range messages {
+		args = append(args, m.String())
+	}
+
+	first, last, step := 1, 1, 1
+	switch strings.ToLower(args[0]) {
+	case "select", "ping", "multi", "exec", "publish", "replconf", "script", "flushdb", "flushall", "swapdb":
+		return nil
+	case "del", "unlink":
+		last = len(args) - 1
+	case "mset", "msetnx":
+		last, step = len(args)-1, 2
+	case "rename", "renamenx", "rpoplpush", "brpoplpush", "smove":
+		last = 2
+	case "bitop":
+		first, last = 2, 2
+	case "eval", "evalsha":
+		first, last = 3, 2
+		if len(args) > 2 {
+			n, _ := strconv.Atoi(args[2])
+			last += n
+		}
+	}
+
+	for i := first; i <= last && i < len(args); i += step {
+		keys = append(keys, args[i])
+	}
+
+	return keys
+}
-- 
2.43.0


From efdc8c7be922d0e52c9b38737e987ed295c71563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:33 +0000
Subject: [PATCH 58/71] fix: the client starts with a usable cache

---
 xxcache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xxcache.go b/xxcache.go
index cd29f87..0c3a0c8 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -31,7 +31,7 @@ const redisRdbFile = "temp.rdb"
 func New(option Option) (client Client, err error) {
 	client.option = option
 
-	client.cache = new(cache.Cache)
+	client.cache = cache.New()
 	prepareOption(&option)
 
 	repl := redis.Replication{
-- 
2.43.0


From e1ff1ea2ba023ca98316456bde8aa80c5ea89c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:34 +0000
Subject: [PATCH 59/71] fix: an unsupported command does not block the
 replication loop

---
 xxcache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xxcache.go b/xxcache.go
index 0c3a0c8..956be64 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -69,7 +69,7 @@ func (client *Client) handleReplication(repl redis.Replication) {
 			}
 
 			if err := cache.HandleMessage(client.cache, message.Message); err != nil {
-				repl.Err <- err
+				logrus.Warnln("repl error", err)
 			}
 		case err := <-repl.Err:
 			if err != nil {
-- 
2.43.0


From 55815743296a5af9936209ec271006481313bd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:35 +0000
Subject: [PATCH 60/71] fix: the replication loop rests when the stream has
 ended

---
 xxcache.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xxcache.go b/xxcache.go
index 956be64..3c2d301 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -61,9 +61,16 @@ func New(option Option) (client Client, err error) {
 }
 
 func (client *Client) handleReplication(repl redis.Replication) {
+	messages := repl.Messages
 	for {
 		select {
-		case message := <-repl.Messages:
+		case message, ok := <-messages:
+			if !ok {
+				// the stream ended, only acknowledgement errors are left
+				messages = nil
+				continue
+			}
+
 			if message.Database != client.option.database {
 				continue
 			}
-- 
2.43.0


From c7e7efbcbf6f88dc702585f7f993a9a001a4dff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:36 +0000
Subject: [PATCH 61/71] fix: FLUSHALL and SWAPDB reach the cache from every
 database

---
 xxcache.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/xxcache.go b/xxcache.go
index 3c2d301..ccd8f78 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -4,6 +4,7 @@ import (
 	"github.com/liujiangwei/xxcache/cache"
 	"github.com/liujiangwei/xxcache/redis"
 	"github.com/sirupsen/logrus"
+	"strings"
 )
 
 type XXCache interface {
@@ -71,7 +72,7 @@ func (client *Client) handleReplication(repl redis.Replication) {
 				continue
 			}
 
-			if message.Database != client.option.database {
+			if message.Database != client.option.database && !everyDatabase(message.Message) {
 				continue
 			}
 
@@ -86,6 +87,17 @@ func (client *Client) handleReplication(repl redis.Replication) {
 	}
 }
 
+// everyDatabase reports whether a command concerns all databases, whichever is selected
+func everyDatabase(message redis.Message) bool {
+	command, ok := message.(redis.ArrayMessage)
+	if !ok || len(command) == 0 {
+		return false
+	}
+
+	name := strings.ToLower(command[0].String())
+	return name == "flushall" || name == "swapdb"
+}
+
 func prepareOption(option *Option) {
 	if option.RedisMasterAddr == "" {
 		option.RedisMasterAddr = redisMasterAddr
-- 
2.43.0


From 62ba533b0dd053ff530187f1494023bd5361492f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 62/71] fix: a key the local cache lacks is looked up on the
 master

---
 command.go | 6 +++++-
 xxcache.go | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/command.go b/command.go
index b33bdcd..ac18440 100644
--- a/command.go
+++ b/command.go
@@ -75,7 +75,11 @@ type HashCommand interface {
 }
 
 func (client Client) Get(key string) (string, error) {
-	return client.cache.Get(key)
+	if value, err := client.cache.Get(key); err == nil {
+		return value, nil
+	}
+
+	return client.redis.Get(key)
 }
 
 func (client Client) Set(key string, value string) (string, error) {
diff --git a/xxcache.go b/xxcache.go
index ccd8f78..c6912c9 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -56,7 +56,7 @@ func New(option Option) (client Client, err error) {
 
 	go repl.WaitForMessage()
 
-	client.redis = redis.NewClient(redis.Option{Addr: option.RedisMasterAddr})
+	client.redis = redis.NewClient(redis.Option{Addr: option.RedisMasterAddr, Database: option.database})
 
 	return client, err
 }
-- 
2.43.0


From a954e671edf980c7c6afbcca36ab1147873ee3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:06 +0000
Subject: [PATCH 63/71] fix: only the keys a replicated command names are
 dropped

---
 cache/message.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cache/message.go b/cache/message.go
index e915ee2..0420381 100644
--- a/cache/message.go
+++ b/cache/message.go
@@ -27,7 +27,7 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 	}()
 
 	for _, m := range messages {
-		if _, isNil := m.(redis.NilMessage); isNil || m.Protocol() == redis.ProtocolArray || m.Protocol() == redis.ProtocolError {
+		if !isString(m) {
 			return errors.New("error redis message, need an array of strings")
 		}
 	}
@@ -77,6 +77,11 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 	return err
 }
 
+func isString(m redis.Message) bool {
+	_, isNil := m.(redis.NilMessage)
+	return !isNil && m.Protocol() != redis.ProtocolArray && m.Protocol() != redis.ProtocolError
+}
+
 // commandKeys returns the keys a command may write to
 func commandKeys(messages redis.ArrayMessage) (keys []string) {
 	var args []string
@@ -105,7 +110,9 @@ func commandKeys(messages redis.ArrayMessage) (keys []string) {
 	}
 
 	for i := first; i <= last && i < len(args); i += step {
-		keys = append(keys, args[i])
+		if isString(messages[i]) {
+			keys = append(keys, args[i])
+		}
 	}
 
 	return keys
-- 
2.43.0


From 840b4a60f8c4f44e58e31d4320512225d9a42fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:07 +0000
Subject: [PATCH 64/71] fix: sender and receiver may both mark a connection as
 broken

---
 redis/conn.go | 7 ++++---
 redis/pool.go | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index e632d02..fa370d1 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -9,6 +9,7 @@ import (
 	"net"
 	"strconv"
 	"strings"
+	"sync/atomic"
 	"time"
 )
 
@@ -19,7 +20,7 @@ type Conn struct {
 	Timeout      time.Duration
 	ReadTimeout  time.Duration
 	WriteTimeout time.Duration
-	broken       bool // the stream is out of step, do not use it for another command
+	broken       int32 // the stream is out of step, do not use it for another command
 }
 
 func (c *Conn) WithTimeout(duration time.Duration) {
@@ -37,7 +38,7 @@ func (c *Conn) WithWriteTimeout(duration time.Duration) {
 func (c *Conn) Recv() (Message, error) {
 	message, err := c.readMessage()
 	if err != nil {
-		c.broken = true
+		atomic.StoreInt32(&c.broken, 1)
 	}
 
 	return message, err
@@ -51,7 +52,7 @@ func (c *Conn) Send(message Message) error {
 	}
 
 	if err != nil {
-		c.broken = true
+		atomic.StoreInt32(&c.broken, 1)
 	}
 
 	return err
diff --git a/redis/pool.go b/redis/pool.go
index 2b34510..9eadc63 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -3,6 +3,7 @@ package redis
 import (
 	"context"
 	"errors"
+	"sync/atomic"
 )
 
 const defaultPoolCapacity = 20
@@ -75,7 +76,7 @@ func (pool Pool) Put(conn *Conn) {
 		return
 	}
 
-	if conn.broken {
+	if atomic.LoadInt32(&conn.broken) != 0 {
 		_ = conn.Close()
 		<-pool.slots
 		return
-- 
2.43.0


From 5cfd726b7328fc899e835e1dff65489b8a524277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:54 +0000
Subject: [PATCH 65/71] fix: the key a sort stores its result in is dropped

---
 cache/message.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cache/message.go b/cache/message.go
index 0420381..0fc5576 100644
--- a/cache/message.go
+++ b/cache/message.go
@@ -97,8 +97,16 @@ func commandKeys(messages redis.ArrayMessage) (keys []string) {
 		last = len(args) - 1
 	case "mset", "msetnx":
 		last, step = len(args)-1, 2
-	case "rename", "renamenx", "rpoplpush", "brpoplpush", "smove":
+	case "rename", "renamenx", "rpoplpush", "brpoplpush", "smove", "copy", "lmove", "blmove":
 		last = 2
+	case "sort", "georadius", "georadiusbymember":
+		// the result may be stored in another key
+		for i := 2; i+1 < len(args); i++ {
+			option := strings.ToLower(args[i])
+			if (option == "store" || option == "storedist") && isString(messages[i+1]) {
+				keys = append(keys, args[i+1])
+			}
+		}
 	case "bitop":
 		first, last = 2, 2
 	case "eval", "evalsha":
-- 
2.43.0


From 345057a9f96d440236e93598a8eff27b651ee27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:16 +0000
Subject: [PATCH 66/71] fix: a key copied from another database replaces the
 cached one

---
 xxcache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xxcache.go b/xxcache.go
index c6912c9..c9dbd4e 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -87,7 +87,7 @@ func (client *Client) handleReplication(repl redis.Replication) {
 	}
 }
 
-// everyDatabase reports whether a command concerns all databases, whichever is selected
+// everyDatabase reports whether a command may concern other databases than the selected one
 func everyDatabase(message redis.Message) bool {
 	command, ok := message.(redis.ArrayMessage)
 	if !ok || len(command) == 0 {
@@ -95,7 +95,7 @@ func everyDatabase(message redis.Message) bool {
 	}
 
 	name := strings.ToLower(command[0].String())
-	return name == "flushall" || name == "swapdb"
+	return name == "flushall" || name == "swapdb" || name == "copy"
 }
 
 func prepareOption(option *Option) {
-- 
2.43.0


From 4b4a05bd069e3ae19c31756b3c606bb42d6a562a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:50 +0000
Subject: [PATCH 67/71] fix: a very long lifetime does not wrap around to a
 short one

---
 cache/cachestring.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index c094587..79944e1 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -50,7 +50,7 @@ func (c *Cache) SetEX(key, value string, expires int64) (string, error) {
 	defer c.lock.Unlock()
 
 	c.dataDict.Store(key, tryInt64(value))
-	c.expires(key, time.Second*time.Duration(expires))
+	c.expires(key, lifetime(expires, time.Second))
 
 	return OK, nil
 }
@@ -60,11 +60,20 @@ func (c *Cache) PSetEX(key, value string, expiresMs int64) (string, error) {
 	defer c.lock.Unlock()
 
 	c.dataDict.Store(key, tryInt64(value))
-	c.expires(key, time.Millisecond*time.Duration(expiresMs))
+	c.expires(key, lifetime(expiresMs, time.Millisecond))
 
 	return OK, nil
 }
 
+// n units, or the longest duration if n units do not fit in one
+func lifetime(n int64, unit time.Duration) time.Duration {
+	if n > int64(math.MaxInt64/unit) {
+		return math.MaxInt64
+	}
+
+	return time.Duration(n) * unit
+}
+
 func fmtString(v interface{}) (str string, err error) {
 	switch value := v.(type) {
 	case string:
-- 
2.43.0


From 016a882b6f6c4e8435be49acc005f2fc07e93998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:55 +0000
Subject: [PATCH 68/71] fix: a failed start closes its connection to the master

---
 redis/replication.go | 6 ++++++
 xxcache.go           | 1 +
 2 files changed, 7 insertions(+)

diff --git a/redis/replication.go b/redis/replication.go
index f1ed3ca..55d2e8c 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -38,7 +38,11 @@ type Replication struct {
 
 const DefaultReplicationMessages = 10000
 
+// Stop drops the link to the master
 func (repl *Replication) Stop() {
+	if repl.conn != nil {
+		_ = repl.conn.Close()
+	}
 }
 
 func (repl *Replication) SyncWithRedis() error {
@@ -62,11 +66,13 @@ func (repl *Replication) SyncWithRedis() error {
 
 	if err := repl.ping(); err != nil {
 		logrus.Warn("replication error", err)
+		repl.Stop()
 		return err
 	}
 
 	if err := repl.sync(); err != nil {
 		logrus.Warnln("replication error", err)
+		repl.Stop()
 		return err
 	}
 
diff --git a/xxcache.go b/xxcache.go
index c9dbd4e..c972562 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -49,6 +49,7 @@ func New(option Option) (client Client, err error) {
 	go client.handleReplication(repl)
 
 	if err = repl.Load(); err != nil {
+		repl.Stop()
 		return client, err
 	}
 
-- 
2.43.0


From 95f58ce0306f588379e5a66b5e4f46be1571ab3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:54 +0000
Subject: [PATCH 69/71] fix: HMSet without fields does not create an empty hash

---
 cache/cachehash.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index cf48096..7e5d86d 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -293,7 +293,8 @@ func (c *Cache) HMSet(key string, fv map[string]string) (n int, err error){
 	defer c.lock.Unlock()
 
 	he, err := c.getHashEntry(key)
-	if err != nil{
+	// without fields there is nothing to create
+	if err != nil || len(fv) == 0{
 		return n, err
 	}
 
-- 
2.43.0


From 0ad701f1bbf425b06c4e55f0c5ead6a107fd4e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:54 +0000
Subject: [PATCH 70/71] fix: a failed start leaves no goroutine behind

---
 xxcache.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xxcache.go b/xxcache.go
index c972562..b3dc94d 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -50,6 +50,7 @@ func New(option Option) (client Client, err error) {
 
 	if err = repl.Load(); err != nil {
 		repl.Stop()
+		close(repl.Err)
 		return client, err
 	}
 
@@ -80,7 +81,12 @@ func (client *Client) handleReplication(repl redis.Replication) {
 			if err := cache.HandleMessage(client.cache, message.Message); err != nil {
 				logrus.Warnln("repl error", err)
 			}
-		case err := <-repl.Err:
+		case err, ok := <-repl.Err:
+			if !ok {
+				// the start failed, nobody uses this client
+				return
+			}
+
 			if err != nil {
 				logrus.Warnln("repl error", err)
 			}
-- 
2.43.0


From f7c04e6c920a1fffc89f66ac48b70abae99fd215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:54 +0000
Subject: [PATCH 71/71] fix: the link to the master is dropped when its stream
 cannot be followed any more

---
 redis/replication.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redis/replication.go b/redis/replication.go
index 55d2e8c..4f54b47 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -84,6 +84,7 @@ func (repl *Replication) WaitForMessage() {
 	for {
 		message, err := repl.conn.Recv()
 		if err != nil {
+			repl.Stop()
 			repl.Err <- err
 			close(repl.Messages)
 			return
-- 
2.43.0

