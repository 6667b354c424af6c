#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (one source of truth for ids, titles and statements).
import json,sys,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=observe or [],hook_needed=hook)))
CS="cache/cachestring.go"; CH="cache/cachehash.go"; CU="cache/cacheutil.go"; CD="cache/cachedb.go"; CC="cache/cache.go"; CR="cache/cachecron.go"; CM="cache/message.go"; CL="cache/cachelist.go"; DB="cache/database.go"
DATA=("dataDict","key -> stored value (string, number, hash, list)",CC)
EXP=("expiresDict","key -> deadline",CC)
LOCK=("lock","guards both dictionaries and every entry in them",CC)

p("C01","Stored strings are read back byte for byte",
 "Whatever string a client stores in the cache under a key (Set, SetNX, SetEX, PSetEX, GetSet, MSet, MSetNX, or built up with Append/SetRange) is exactly the string that Get, GetSet, MGet, StrLen and GetRange report for that key until the next write, byte for byte. This holds for text that merely looks like a number (leading zeros, signs, exponents, trailing zeros, inf/nan, hex, 64-bit extremes), for binary data, for the empty string and for any length.",
 ["inputs","histories"],"every writer x every value x every reader, after every short history of earlier operations on the key",
 "The tests store 'test', '1' and '1.11' only; whether an arbitrary text survives the numeric re-encoding is a statement about all strings.",
 [CS],[("tryInt64 stores a numeric form of a text value",CS),("fmtString turns the stored form back into text",CS)],[DATA],["Cache.Get","Cache.GetSet","Cache.MGet","Cache.StrLen","Cache.GetRange"])
p("C02","Create-if-absent writes exactly the absent keys",
 "SetNX stores and returns 1 exactly when the key does not exist at that moment (never written, deleted, flushed or past its deadline) and otherwise returns 0 and changes nothing; MSetNX does the same for each of its keys and returns how many it stored. A key created this way carries no deadline left over from an earlier value.",
 ["histories","inputs"],"every history of writes, deletes, deadlines and clock advances before the conditional write",
 "The tests call SetNX on a fresh and on a live key; the expired-but-not-yet-reclaimed state and multi-step histories are never reached.",
 [CS,CU],[("LoadOrStore in SetNX/MSetNX",CS),("lazy reclamation of expired keys",CU)],[DATA,EXP],["Cache.SetNX","Cache.MSetNX"])
p("C03","Append, SetRange, GetRange and StrLen follow byte-string arithmetic",
 "Append and SetRange change the value exactly as the corresponding byte-string edit does (a missing key is an empty string, a gap is filled with zero bytes, bytes outside the written window are untouched, a SetRange of the empty string changes nothing) and return the new length; a negative SetRange offset is rejected without any change. StrLen is the byte length, and GetRange returns exactly the bytes whose index lies in the inclusive range, negative positions counting from the end and positions outside the string contributing nothing.",
 ["inputs","histories"],"every value, every offset pair around 0, the length, their negatives and the integer extremes, after every short history",
 "Tests try six fixed (start,end) pairs and three offsets on one value.",
 [CS],[("byte loops in SetRange/GetRange",CS),("Append concatenation",CS)],[DATA],["Cache.Append","Cache.SetRange","Cache.GetRange","Cache.StrLen"])
p("C04","Integer counters compute exact decimal arithmetic or refuse",
 "Incr, Decr, IncrBy and DecrBy on a key holding the decimal form of a 64-bit signed integer, however that value got there, store and return exactly the mathematical sum; a missing or expired key counts as 0. When the value is not such an integer, or the result does not fit in 64 bits, they return an error and leave value and deadline unchanged.",
 ["inputs","histories"],"all histories of string, counter and float operations over boundary integers",
 "Tests increment by 1 and 2 from a fresh key; representation changes (text, int, int64, float) and overflow are never reached.",
 [CS],[("incrBy type switch",CS)],[DATA],["Cache.Incr","Cache.IncrBy","Cache.Decr","Cache.DecrBy","Cache.Get"])
p("C05","IncrByFloat adds to whatever number the key shows",
 "IncrByFloat on a key whose value is the decimal text of any number (integer or fractional, however it was written, including by the counter commands) stores and returns the floating-point sum, and the stored text denotes exactly the returned number; a missing or expired key counts as 0. A value that is not a number is rejected with an error and left unchanged.",
 ["inputs","histories"],"all histories mixing integer counters, float increments, text writes and edits",
 "The tests use one key and only float increments, so the counter-created and text-created representations are never combined.",
 [CS],[("IncrByFloat type switch",CS)],[DATA],["Cache.IncrByFloat","Cache.Get"])
p("C06","A key with a deadline is served before it and never after it",
 "A value stored with SetEX or PSetEX is visible to every command strictly before its lifetime has elapsed, and strictly after that moment every command behaves exactly as if the key had never been written: reads, length, range, existence, type, multi-key reads, deletes, conditional writes, counters, appends and hash commands alike. Neither the order in which commands touch the key nor how often it was read before changes this.",
 ["histories","inputs"],"all sequences of commands and clock advances up to the explored depth, for all positive lifetimes in the domain",
 "Two tests sleep once and then call Get; no other command is ever applied to an expired key.",
 [CU,CS,CD,CH],[("expired()/get() lazy expiry",CU),("expires() stores the deadline",CU)],[DATA,EXP],["every Cache command"])
p("C07","A deadline belongs to the value it was set with",
 "Replacing a value outright (Set, GetSet, MSet) or deleting it (Del, Flush) discards its deadline, and SetEX/PSetEX replace it by the new one, so a later value never disappears because of an earlier value's deadline. Edits in place (Append, SetRange, Incr, Decr, IncrBy, DecrBy, IncrByFloat) keep the deadline exactly, and reads, refused operations and operations on other keys never change it.",
 ["histories"],"all histories of deadline-setting, overwriting, editing and clock advances up to the explored depth",
 "No test overwrites a key that carries a deadline.",
 [CU,CS,CD],[("expires() called by SetEX/PSetEX",CU),("expiresDict.Delete on Del",CD)],[EXP],["Cache.Get after clock advances"])
p("C08","Background expiry removes expired keys and nothing else",
 "With the background expiry service running, clients observe exactly the same results as without it: keys with no deadline and keys whose deadline lies ahead stay readable with their value and deadline intact, and keys past their deadline stay gone. The values of expired keys, any number of them, leave memory within a few sweeps without anybody touching those keys. This holds however the sweeps interleave with client commands.",
 ["histories","schedules"],"all short client histories x all placements and interleavings of sweeps",
 "The cron service is never started by any test (the call is commented out).",
 [CR,CC],[("cronExpire sweep over the dictionaries under the lock",CR),("Cron starts it",CC)],[DATA,EXP,LOCK],["Cache.Cron","Cache.Get"])
p("C09","A hash is a map from fields to strings",
 "HSet, HSetNX, HMSet, HDel, HGet, HMGet, HExists, HStrLen, HKeys, HVals and HGetAll behave as operations on a map from field to string: every field reads back byte for byte what was last written to it, the write commands report the number of newly created fields, HDel reports the number of fields removed, the listing commands return every field (or value, or pair) exactly once, and missing keys or fields read as absent without failing. Reading commands change nothing, a hash whose last field is deleted no longer exists, and HMSet without fields changes nothing.",
 ["histories","inputs"],"all hash operation sequences up to the explored depth over colliding fields and number-like values",
 "Tests cover HSet, HSetNX, HExists, HGet on one field; HKeys, HVals, HGetAll, HMGet, HMSet, HStrLen are never called.",
 [CH],[("hashEntry get/set over a concurrent map",CH)],[DATA],["Cache.HGet","Cache.HGetAll","Cache.HKeys","Cache.HVals"])
p("C10","HLen is always the number of fields",
 "After any sequence of hash commands, successful, refused or repeated, HLen of a key equals the number of distinct fields that HKeys lists for it, and is 0 for a key that does not exist.",
 ["histories"],"all sequences of hash commands up to the explored depth",
 "HLen is never called by a test; a drifting counter needs a sequence mixing writers and readers.",
 [CH],[("hashEntry.length maintained by hand",CH)],[("length","cached number of fields",CH)],["Cache.HLen","Cache.HKeys"])
p("C11","Hash counters store what they return",
 "HIncrBy and HIncrByFloat on a field holding the decimal text of a number (an integer for HIncrBy), however it was written, return the sum and the field reads back as that same number afterwards; a missing key or field counts as 0. A field that is not such a number, or a result outside the 64-bit range for HIncrBy, yields an error and leaves the hash unchanged.",
 ["histories","inputs"],"all sequences of hash writes and increments over boundary values",
 "Neither command is ever called by a test.",
 [CH],[("HIncrBy/HIncrByFloat type switches",CH)],[DATA],["Cache.HIncrBy","Cache.HIncrByFloat","Cache.HGet"])
p("C12","Wrong-type commands are refused and change nothing",
 "A string command that reads or edits a key holding a hash or a list, a hash command on a key holding a string or a list, and RPush on a key holding a string or a hash return the wrong-type error and leave the key's value, type and deadline exactly as they were; Set, SetEX, PSetEX and MSet replace any type. RPush appends its values to the list, which begins empty when the key is absent or expired, and returns the number of elements the list then has; without values it creates nothing. Type reports 'string', 'hash', 'list' or 'none' according to what the key holds now.",
 ["histories","inputs"],"every command x every type of the key, from every state reachable in the explored depth",
 "No test applies a command to a key of the other type.",
 [CS,CH,CD],[("fmtString/incrBy default cases",CS),("getHashEntry type assertion",CH),("Type switch",CD)],[DATA],["all commands","Cache.Type"])
p("C13","Del, Exists, Flush and key isolation",
 "Del removes a key and its deadline whatever it holds and returns 1 if it existed and 0 otherwise; Exists returns how many of the given keys exist (counting repeats); Flush removes every key and deadline. A command never changes the observable value, type or deadline of a key it does not name.",
 ["histories"],"all histories over several keys up to the explored depth, observing every key after every step",
 "Tests use Del as a fixture; no test observes a second key.",
 [CD],[("Del/Exists/Flush",CD)],[DATA,EXP],["Cache.Del","Cache.Exists","Cache.Flush"])
p("C14","Concurrent string commands are linearizable",
 "When several goroutines use one cache at the same time, every single-key string command (Set, SetNX, SetEX, Get, GetSet, StrLen, Append, SetRange, GetRange, Incr/Decr family, IncrByFloat, Del, Exists, Type), and RPush, takes effect atomically at some instant between its call and its return: results and final contents equal those of some sequential order. In particular no increment, append, push or acknowledged write is lost.",
 ["schedules"],"all interleavings at synchronization granularity of 2-3 goroutines running 1-2 colliding commands each, from absent/present/expired initial states",
 "All tests are single-threaded; the benchmarks use distinct keys and check nothing.",
 [CS,CD,CC],[("Cache.lock around each command",CS),("concurrent maps behind Database",DB)],[DATA,EXP,LOCK],["recorded call/return history"],"controlled scheduler substituted for sync at build time (overlay, no change in /repo)")
p("C15","Concurrent hash commands are linearizable",
 "When several goroutines use one hash at the same time, every hash command takes effect atomically at some instant between its call and its return, including the commands that create the hash and the ones that delete its last field: no field write, deletion or increment is lost and HLen agrees with the surviving fields.",
 ["schedules"],"all interleavings at synchronization granularity of 2-3 goroutines running 1-2 colliding hash commands each",
 "No test runs two hash commands at the same time.",
 [CH,CC],[("Cache.lock / concurrent maps",CC)],[DATA,LOCK],["recorded call/return history"],"controlled scheduler (overlay)")
p("C16","Multi-key commands are atomic",
 "MSet, MSetNX, MGet, Exists, HMSet, HMGet, HGetAll, RPush of several values and Flush are atomic: no concurrent command sees only part of an MSet, HMSet or Flush, and a multi-key read returns values that all existed together at one instant.",
 ["schedules"],"all interleavings of multi-key writers with multi-key and single-key readers and writers",
 "Concurrency is never tested; atomicity of several keys needs a second goroutine between two stores.",
 [CS,CD,CH],[("Cache.lock around multi-key loops",CS)],[DATA,LOCK],["recorded call/return history"],"controlled scheduler (overlay)")
p("C17","Reclaiming an expired key never destroys a newer value",
 "When a reader (any reading command), a conditional writer or the background sweep notices that a key has expired while another goroutine writes a fresh value to that key, the fresh value survives: a write that has returned stays visible until overwritten, deleted or past its own deadline.",
 ["schedules","histories"],"all interleavings of one or two reclaiming commands with a writer on a key that is expired or expires during the run",
 "Needs a thread switch between the expiry check and the removal, on an expired key.",
 [CU,CR,CS,CD],[("expired() deletes under the caller's lock",CU),("cronExpire",CR)],[DATA,EXP,LOCK],["final reads after the race"],"controlled scheduler and virtual clock (overlay)")
p("C18","No pair of concurrent cache commands races, deadlocks or panics",
 "Any two cache commands, Flush and the background service included, may run at the same time on the same key without a data race on the cache's memory, without deadlock and without a panic.",
 ["schedules"],"all unordered pairs of commands x initial key states x all interleavings; happens-before race detection on every explored schedule",
 "The test suite never runs two commands concurrently and never under a race detector.",
 [CC,CS,CH,CD,CR],[("Cache.lock",CC)],[LOCK],["vector-clock race detector on instrumented field accesses"],"field-access instrumentation (overlay)")

RC="redis/conn.go"; RP="redis/protocol.go"; RPOOL="redis/pool.go"; RR="redis/redis.go"; RCMD="redis/command.go"; REPL="redis/replication.go"
p("C19","RESP messages survive the wire however it is fragmented",
 "Every message the library can serialize (bulk string of any bytes and length, nil, integer, simple string, error, and arrays of these, nested and empty) is read back equal to what was written, consuming exactly its own bytes so that the next message on the same connection is read correctly. How the byte stream is cut into network reads makes no difference.",
 ["inputs","schedules"],"all messages of a bounded grammar incl. buffer-size boundaries x every single and double cut of the byte stream, in sequence with a follow-up message",
 "No test reads a message; short reads depend on packet boundaries a test on loopback does not control.",
 [RC,RP],[("readMessage recursive parser",RC),("Serialize methods",RP)],[("Reader","buffered connection reader",RC)],["Conn.Recv","Message.Serialize"])
p("C20","A broken or malformed reply is an error, never a value",
 "If the peer closes the connection or the network fails at any byte inside a reply, or sends bytes that are not a valid reply (unknown type, non-numeric, negative or absurd length), reading it returns an error: it never yields a message, never panics and never blocks once the input has ended.",
 ["fault_sequences","inputs"],"every proper prefix of every message in the grammar x every fragmentation, and every malformed header in the domain",
 "No test injects a fault or a malformed byte.",
 [RC],[("error returns of readMessage",RC)],None,["Conn.Recv"])
p("C21","Each client method sends the command it is named after",
 "Every method of the Redis client sends exactly one request per call: the Redis command its name denotes, with the caller's arguments in the order Redis defines for that command (SETEX/PSETEX key lifetime value, INCRBY key n, and so on), every argument byte-exact, followed by nothing else. A client configured with a password or database announces them (AUTH, then SELECT) on each new connection before that connection's first command; if that fails the call reports an error and the connection is not used.",
 ["inputs"],"every client method x argument domains (binary, empty, long, negative, extreme)",
 "The only test calls Get against no server; nothing checks the bytes sent.",
 [RR,RP],[("argument lists built per method",RR),("ConvertToMessage",RR)],None,["bytes received by the server"])
p("C22","Client methods return what the server replied",
 "Every method of the Redis client returns exactly what the server's reply says: the string, integer, float, status or list on success (an empty or zero value only when the server said so), a non-nil error when the server replied with an error or nil or with a reply of the wrong kind, and per-element errors only for the nil elements of a multi-get.",
 ["inputs"],"every client method x every reply kind and boundary value",
 "No test sees a server reply.",
 [RCMD,RC,RR],[("Command.Parse/Result",RCMD),("ExecCommand error mapping",RC)],None,["return values of redis.Redis methods"])
p("C23","The connection pool is bounded, loses nothing and never hangs",
 "Under any concurrent use the pool never has more connections open than its capacity, never hands one connection to two callers at once, and every call completes as long as borrowed connections are returned: a failed dial or a failing open handler gives that caller an error and costs no capacity and no lock, a cancelled context unblocks the waiter, and Close closes the idle connections and returns.",
 ["schedules","fault_sequences"],"all interleavings of 2-3 callers with capacity 1-2 x all patterns of dial and handler failures",
 "The single test makes one failing call; a second call after it would hang, and no test ever makes it.",
 [RPOOL],[("size/capacity accounting under the mutex",RPOOL),("channel of idle connections",RPOOL)],[("size","connections created",RPOOL),("connC","idle connections",RPOOL)],["open connections at the fake server","call completion"],"controlled scheduler and in-memory network (overlay)")
p("C24","Every caller gets the reply to its own command",
 "However calls are interleaved over the pooled connections and whatever fails in between (a reply cut off, delayed or garbled, a connection dropped), a client call either returns the reply the server gave to that very command or an error; it never returns another command's reply, and once the server is healthy again calls succeed again.",
 ["schedules","fault_sequences"],"all interleavings of 2-3 callers x a fault at every point of an earlier reply, followed by healthy calls",
 "Needs a failed exchange followed by reuse of the same connection.",
 [RPOOL,RC],[("exclusive borrow of a connection",RPOOL),("request/reply in ExecCommand",RC)],[("Reader","unread bytes left on a connection",RC)],["return values of concurrent calls"],"controlled scheduler and in-memory network (overlay)")

RDB="redis/rdb/rdb.go"; ZL="redis/ziplist/ziplist.go"; ZM="redis/zipmap/zipmap.go"; IS="redis/intset/intset.go"; LZ="redis/lzf/lzf.go"; LZC="redis/lzf/lzf_c.c"; LZD="redis/lzf/lzf_d.c"
p("C25","RDB lengths, strings and doubles decode exactly",
 "Every RDB length (6, 14, 32 and 64 bit forms), every RDB string (raw of any length, 8/16/32-bit signed integer forms, LZF-compressed) and every double (text form with its infinities and NaN, binary form) decodes to the value Redis encoded and consumes exactly its bytes, whatever the size of the underlying reads.",
 ["inputs"],"all encodings x boundary values of each width x read fragmentations around the buffer size",
 "The rdb package has no tests.",
 [RDB,LZ],[("LoadLen/LoadString/LoadDouble/LoadBinaryDouble",RDB)],None,["rdb.LoadLen","rdb.LoadString","rdb.LoadDouble","rdb.LoadBinaryDouble"])
p("C26","Compact encodings decode to the elements they hold",
 "A ziplist decodes to its entries in order for every entry encoding (6/14/32-bit strings, immediate, 8/16/24/32/64-bit signed integers) and either previous-length form, an intset to its signed members for every width, and a zipmap to exactly its field/value pairs for any number of fields, any lengths and any free space.",
 ["inputs"],"all sequences of up to 3 entries over every encoding and boundary value",
 "The intset and ziplist packages have no tests and zipmap's test only writes one pair.",
 [ZL,IS,ZM],[("ziplist.Load iterator",ZL),("intset.Load",IS),("zipmap.Load",ZM)],None,["ziplist.Load","intset.Load","zipmap.Load"])
p("C27","Loading a snapshot reproduces the master's dataset",
 "For every well-formed snapshot of the supported value types, the commands emitted while loading it, executed in order by a Redis-compatible store, rebuild exactly the master's dataset: every key once, in its database, with its type, its elements in order (or with their scores), and its expiry as the same absolute time. Auxiliary fields, size hints and idle/frequency marks change nothing.",
 ["inputs","histories"],"all snapshots of up to 3 objects over every type, encoding, database and expiry form in the domain",
 "Nothing loads a snapshot in the tests that run here.",
 [REPL,RDB],[("Replication.Load opcode loop",REPL)],[("expiresTime","deadline carried to the next key",REPL),("database","selected database",REPL)],["Replication.Messages"])
p("C28","A damaged or unsupported snapshot is reported, never half-trusted",
 "If the snapshot file is cut off at any byte before its end mark, holds a string or a collection that claims more bytes or elements than the file has, a string in an encoding that does not exist, a ziplist, intset or zipmap that is cut off, or an intset that claims more members than it holds, does not start with the RDB signature, or contains a value type the loader does not support, loading returns an error; it never reports success, never terminates or panics the process, and never emits a command for an object it could not read completely.",
 ["crash_points","inputs"],"every byte position as the truncation point of every snapshot in the domain, every unsupported type code",
 "No test feeds a damaged file.",
 [REPL,RDB],[("error returns in Load and the rdb readers",REPL)],None,["Replication.Load","Replication.Messages"])
p("C29","LZF compression round-trips and rejects garbage safely",
 "Decompressing what Compress produced, with the original length, gives back the original string for every input, compressible or not, empty included. Decompressing arbitrary bytes never reads or writes outside its buffers, and a compressed string inside a snapshot that does not decode to its declared length is reported as an error.",
 ["inputs"],"all strings over small alphabets up to the bound, all run/period/offset boundary patterns; all short compressed streams",
 "The two tests only print one example.",
 [LZ,LZC,LZD,RDB],[("cgo wrappers",LZ),("bounds checks in lzf_decompress",LZD)],None,["lzf.Compress","lzf.DeCompress","rdb.LoadString"])
p("C30","The sync handshake stores exactly the master's snapshot",
 "Synchronizing with a master that answers the handshake saves exactly the snapshot payload, no byte more or less, in the configured file and leaves the stream positioned at the first replicated command, whatever the fragmentation and whatever keep-alive newlines precede the payload. If the master refuses, answers something else, drops the connection at any byte, or the file cannot be written completely, synchronizing returns an error.",
 ["fault_sequences","inputs"],"all payload lengths around buffer boundaries x fragmentations x keep-alives, a connection cut at every byte, a write failure at every flush",
 "The tests that synchronize need a Redis server and do not run.",
 [REPL,RC],[("SyncWithRedis/ping/sync",REPL),("ReadWithWriter",RC)],None,["RDB file content","Replication.SyncWithRedis","Conn.ReadWithWriter"])
p("C31","The replication stream is forwarded in order, once, per database",
 "Every command the master streams after the snapshot is forwarded exactly once, in order, unmodified and labelled with the database selected at that point of the stream; keep-alive pings are consumed silently and nothing else is dropped. When the stream ends the end is reported and the message channel is closed after the last complete command.",
 ["histories","inputs","fault_sequences"],"all command streams up to length 3-4 over selects, pings, ping-like data and writes x fragmentations x end positions",
 "Nothing feeds a replication stream in the tests.",
 [REPL],[("WaitForMessage loop",REPL)],[("Messages","forwarded commands",REPL)],["Replication.Messages","Replication.Err"])
p("C32","A replicated command is applied faithfully or reported",
 "Handing a replicated command to the cache either applies it with the effect it has on the master and returns nil (set, rpush and hmset are supported), or returns an error; it never panics, whatever the command name, letter case, arity or message kind. After an error the cache does not keep serving an old value for the key the command addressed, and other keys are untouched.",
 ["inputs","histories"],"all messages over command names x arities x argument values, from every small cache state",
 "The only test of message handling is commented out.",
 [CM,CL,CH],[("HandleMessage dispatch",CM)],[DATA],["cache.HandleMessage","Cache reads"])
p("C33","The client serves the master's data, locally when it can",
 "Once the replication traffic has been processed, Get on the client returns for every key the value the master has at that point: keys from the snapshot and from the stream, overwritten, deleted, expired on the master or absent. String keys present locally are served without contacting the master, other databases' keys never leak in, and a key the local cache lacks is looked up on the master.",
 ["histories","inputs","schedules"],"all master histories of a few commands split at every point between snapshot and stream, over the whole client, under explored schedules",
 "Root-package tests need a live Redis server and are excluded.",
 ["xxcache.go","command.go",CM,REPL],[("New wires sync, load, stream and cache",  "xxcache.go"),("Client.Get/Set","command.go")],None,["Client.Get","requests seen by the fake master"],"in-memory network, virtual clock, controlled scheduler (overlay)")
p("C34","Replication trouble never wedges or crashes the client",
 "Whatever the master sends after a successful start (unsupported commands in any number, malformed data, a connection lost at any byte), the client process neither panics nor spins nor deadlocks: the remaining replicated commands are still applied, acknowledgements go on while the link is up, and client calls still complete. Once the stream has ended or cannot be understood any more, the link to the master is closed.",
 ["fault_sequences","schedules"],"all streams mixing supported and unsupported commands, cut at every byte, under all explored interleavings of the client's goroutines",
 "Needs several errors in flight between goroutines; no test runs the client.",
 ["xxcache.go",REPL,CM],[("handleReplication select loop","xxcache.go"),("Err channel of capacity 1",REPL)],[("Err","pending replication errors",REPL)],["quiescence of all goroutines","Client.Get"],"controlled scheduler with deadlock and livelock detection (overlay)")
p("C35","A zipmap finds every key that was set in it",
 "After any sequence of Set calls on a new zipmap, Lookup reports exactly the keys that were set, whatever their number, order and lengths, never panics, and reports keys that were not set as absent even if their bytes occur inside other keys or values.",
 ["histories","inputs"],"all sequences of up to 4 Set calls over keys/values of boundary lengths, looking up every key of the domain after each",
 "The only test sets one key and prints the result.",
 [ZM],[("Set appends an encoded pair",ZM),("Lookup walks the entries",ZM)],[("value","encoded bytes",ZM)],["zipmap Set","zipmap Lookup"])
p("C36","A client is handed out only in step with its master",
 "New returns a nil error only after the master's complete, well-formed snapshot has been received, stored and loaded. When the master is unreachable, refuses, answers PING or SYNC wrongly, drops the connection at any byte of the handshake or the payload, sends a truncated snapshot or one with an unknown record, or when the snapshot file cannot be written, New returns an error; it does not hang or panic, closes the connection it made and the snapshot file, sends nothing afterwards and leaves no goroutine running. A later New against a healthy master then works and serves that master's data only, whatever the file held or a failed start left in it. All connections go to the configured master.",
 ["fault_sequences","inputs","schedules"],"every way one start can fail (cut at every byte of the answers and of the snapshot) and all pairs and triples of a core of them, followed by a healthy start, from every prior content of the snapshot file",
 "Root-package tests need a live Redis server and are excluded; no test starts a client against a failing master.",
 ["xxcache.go","redis/replication.go"],[("New: sync, load, stream",  "xxcache.go"),("SyncWithRedis and Load","redis/replication.go")],[("RdbFile","where the snapshot is stored before it is loaded","redis/replication.go")],["error of New","open connections of the fake master","Client.Get after a later start"],"in-memory network, virtual clock, controlled scheduler (overlay)")
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import re
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P),"properties")
