#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for the property list)."""
import json, os
P = []
MECH = {"C11": "length checks when a container is loaded or changed", "C12": "argument checks before the first change",
        "C14": "one KeyInfo per key in a sharded map", "C16": "per-connection hand-over to the worker pool",
        "C20": "decoder error returns and connection closing", "C21": "closing and draining the event queue",
        "C23": "growing buffers, shards and skip list levels", "C25": "replace the configuration only after decoding"}
def p(id, title, statement, over, text, why, files, symbols=None, mech=None, observe=None, hook=None):
    a = {"files": files}
    if symbols: a["state"] = symbols
    a["mechanism"] = mech or [{"name": MECH.get(id, "command handlers"), "where": files[0]}]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

def st(n, m, w): return {"name": n, "meaning": m, "where": w}
def me(n, w): return {"name": n, "where": w}
SEQ = "every sequence of commands a client can send, from every reachable store"
REPLY = ["reply bytes of each command on the client connection"]

p("C01", "String values read back exactly as last written",
  "After SET, MSET or APPEND, GET and MGET return for each key exactly the bytes most recently written to it (APPEND extends them and replies the new length), whatever bytes they are, until another command changes or deletes that key. MSET writes every pair it is given, a later pair for the same key winning. A key that does not exist, and in MGET a key of another type, reads as nil.",
  ["inputs", "histories"], SEQ + "; all byte strings as keys and values",
  "The tests never run a string command at all; redis/string_test.go only calls strconv.",
  ["datastruct/string.go", "redis/string.go"],
  [st("string value", "bytes held under a key of string type", "datastruct/string.go"), ],
  [me("Set/MSet/Append/Get/MGet", "datastruct/string.go")], REPLY)

p("C02", "Integer counters are exact or refuse",
  "INCR, DECR, INCRBY and DECRBY reply the exact mathematical result, and the key then reads back as that number; a missing key counts as 0. If the stored value or the argument is not a decimal 64-bit signed integer, or the result would not fit in one, the reply is an error and the value is unchanged.",
  ["inputs", "histories"], SEQ + "; all 64-bit operands including the extremes",
  "No test executes a counter command; overflow and malformed operands need the whole integer range.",
  ["datastruct/string.go", "redis/string.go"], None, [me("IncrBy", "datastruct/string.go")], REPLY)

p("C03", "A list behaves as one double-ended sequence",
  "LPUSH, RPUSH, LPOP, RPOP, LSET, LINSERT, LREM, LRANGE, LINDEX and LLEN behave as operations on one sequence of byte strings: pushes add at the named end one by one, pops take up to the requested count from the named end in order, negative positions count from the end, LREM removes the first |count| matches from the head (count>0), the tail (count<0) or all (0), and LINSERT places the element next to the first match. LRANGE, LINDEX and LLEN always agree on that sequence.",
  ["inputs", "histories"], SEQ + "; all lengths, positions, counts and duplicate patterns",
  "The list tests check single calls on one fresh list; they never chain removals with pushes or read a list from both ends after it was emptied.",
  ["datastruct/list.go", "redis/list.go"],
  [st("list", "double-ended sequence of byte strings", "datastruct/list.go")],
  [me("List methods", "datastruct/list.go")], REPLY)

p("C04", "A set holds each member once and all its views agree",
  "SADD, SREM, SPOP and SMOVE change a set of distinct byte strings and reply exactly how many members they added or removed (SPOP: which; one by default); SMEMBERS, SISMEMBER and SCARD always describe exactly the current members. SPOP only returns members that were present and removes exactly those; SMOVE moves the member to the destination if it was in the source and otherwise changes nothing and replies 0.",
  ["inputs", "histories"], SEQ, "Every set test is commented out; cardinality bookkeeping across pops and moves is only visible over histories.",
  ["datastruct/set.go", "redis/set.go", "lib/shard_map/shard_map.go"],
  [st("set", "set of members plus its cardinality", "datastruct/set.go")],
  [me("sAdd/sRem/sPop/SMove", "datastruct/set.go")], REPLY)

p("C05", "Set algebra is exact and its stored result is independent",
  "SDIFF, SINTER and SUNION return exactly the difference (first set minus all the others), intersection or union of the named sets, for any number of keys, with a missing key counting as the empty set. The STORE forms replace the destination by that result (deleting it if the result is empty) and reply its size, and afterwards changing any source or the destination never affects the others.",
  ["inputs", "histories"], SEQ + "; any number of operand keys, repeated and missing keys, the destination among the sources",
  "No test runs a set algebra command; aliasing shows only when the result and a source are later modified.",
  ["datastruct/set.go", "redis/set.go"], None, [me("SDiff/SInter/SUnion and *Store", "datastruct/set.go")], REPLY)

p("C06", "A hash returns for each field exactly what was last written",
  "HSET, HMSET and HSETNX (only if absent) store a value per field, and HGET, HMGET, HGETALL, HVALS, HKEYS, HEXISTS and HLEN always describe exactly the fields written and not since deleted by HDEL, each with exactly the bytes last written, also for values that look like numbers. HSET replies the number of pairs written, HDEL the number of fields removed, HSETNX 1 or 0; an absent field reads as nil.",
  ["inputs", "histories"], SEQ + "; all field names and values, numeric-looking text included",
  "The hash tests call three internal methods on a fresh table and never a command; the field count, deletion and text fidelity are not observed.",
  ["datastruct/hash_table.go", "redis/hash_table.go", "util/strconv.go"],
  [st("hash", "field to value map plus its length", "datastruct/hash_table.go")],
  [me("set/del/get", "datastruct/hash_table.go"), me("ConvertToValidValue", "util/strconv.go")], REPLY)

p("C07", "Hash counters are exact or refuse",
  "HINCRBY replies the exact sum and the field then reads back as it, with an absent field or key counting as 0; it is refused with an error and changes nothing if the field does not hold an integer, the argument is not one, or the sum leaves 64 bits. HINCRBYFLOAT does the same for fields that hold a floating-point number, and never stores a value that is not a finite number.",
  ["inputs", "histories"], SEQ + "; integer, float and text fields, the 64-bit extremes",
  "Tests call the two internal increments on a fresh table; no test sees them through a key, with a length, or at the limits.",
  ["datastruct/hash_table.go", "redis/hash_table.go"], None, [me("incrBy/incrByFloat", "datastruct/hash_table.go")], REPLY)

p("C08", "A sorted set keeps one score per member and one order in all views",
  "A sorted set maps each distinct member to one score; ZADD (with NX, XX, INCR), ZINCR, ZREM, ZPOPMIN and ZPOPMAX change exactly the members they name or the lowest/highest ones, and reply what they changed. ZSCORE, ZRANK, ZCARD, ZRANGE and ZREVRANGE (with or without scores, positive or negative positions) always agree with one and the same order by score and then by member bytes, ZRANK counting from 0 and ZREVRANGE being its exact reverse. A score is never not-a-number.",
  ["inputs", "histories"], SEQ + "; all score ties, member orders, random tower heights",
  "The skip-list tests insert six members once and never delete; heights are random, so wrong links show only for some heights and histories.",
  ["datastruct/sorted_set.go", "redis/sorted_set.go"],
  [st("sorted set", "member to score map and the ordered sequence", "datastruct/sorted_set.go")],
  [me("insert/updateScore/deleteNode/rank/findElementByRank", "datastruct/sorted_set.go")], REPLY)

p("C09", "Score intervals select exactly the members inside them",
  "ZCOUNT, ZRANGEBYSCORE and ZRANGE BYSCORE select exactly the members whose score lies in the requested interval, with '(' excluding an end and -inf/+inf unbounded, also when scores repeat, when no member is inside, or when the ends are crossed; ranges come in order and the count equals their number. A bound that is not a number is refused with an error.",
  ["inputs", "histories"], "every sorted set and every pair of bounds, open or closed, finite or infinite",
  "The tests try eight intervals on one set with six distinct scores; ties, gaps and empty intervals are not tried.",
  ["datastruct/sorted_set.go", "redis/sorted_set.go"], None,
  [me("count/zRangeByScore/minScoreRank/maxScoreRank", "datastruct/sorted_set.go")], REPLY)

p("C10", "A key has one type and refuses commands of other types",
  "At any time a key holds a value of exactly one of the five types, which TYPE reports, or does not exist. A command of another type on it is refused with an error and leaves it as it was (MGET reads it as nil; SET, MSET and the STORE commands replace it), and after DEL it can be recreated as any type.",
  ["inputs", "histories"], "every pair of a stored type and a command, at every argument position that names a key",
  "No test applies a command to a key of another type.",
  ["datastruct/keys.go", "datastruct/consts.go", "redis/keys.go"],
  [st("type tag", "the type of the value under a key", "datastruct/keys.go")], [me("loadKeyInfo", "datastruct/keys.go")], REPLY)

p("C11", "Emptied containers vanish and a missing key reads as empty",
  "A key exists exactly while it holds a string or a non-empty list, set, hash or sorted set: once its last element is removed by any command, EXISTS, TYPE and KEYS no longer show it and it can be recreated as any type. Read and remove commands on a missing key answer like on an empty container (nil, 0 or empty) and never create it, and EXISTS and DEL count exactly the existing keys they name.",
  ["inputs", "histories"], SEQ + "; every command that can remove a last element",
  "No test looks at the keyspace after a container was emptied.",
  ["datastruct/keys.go", "datastruct/list.go", "datastruct/set.go", "datastruct/hash_table.go", "datastruct/sorted_set.go", "redis/keys.go"],
  None, None, REPLY)

p("C12", "A refused command changes nothing",
  "When a command is answered with an error - unknown name, too few or unpaired arguments, a malformed number, bound or option, a wrong type, an overflow, a bad pattern - every key keeps the type and value it had, also when the error concerns only the last argument or the second key of the command.",
  ["inputs", "histories"], "every command, every way of being refused, from every store",
  "No test sends a command that is refused after valid arguments and compares the store.",
  ["redis/command.go", "redis/string.go", "redis/list.go", "redis/set.go", "redis/hash_table.go", "redis/sorted_set.go", "redis/keys.go", "datastruct/set.go"],
  None, None, REPLY)

p("C13", "KEYS lists exactly the keys that match the pattern",
  "KEYS replies every existing key that matches the glob pattern as a whole exactly once and no other key: * matches any run of characters, ? one character, [abc], [a-c] and [!a-c] one character in or outside the class, a backslash makes the next character literal. A malformed pattern is answered with an error.",
  ["inputs", "histories"], "every pattern and every set of keys", "No test calls KEYS.",
  ["datastruct/keys.go", "redis/keys.go", "lib/shard_map/shard_map.go"], None, [me("Keys", "datastruct/keys.go")], REPLY)

p("C14", "Commands touch only the keys they name",
  "A command never changes the existence, type or value of a key it does not name, and reading commands change no key at all. Values handed to or returned from a command stay independent: modifying one key later never changes another key, and using the same key twice in one command behaves like two distinct operands with that value.",
  ["inputs", "histories"], SEQ + "; whole-store comparison after each command",
  "Tests look at one object at a time; interference needs a second key and a whole-store comparison.",
  ["datastruct/keys.go", "datastruct/set.go", "lib/shard_map/shard_map.go"], None, None, REPLY)

p("C15", "Requests are recognised whatever the segmentation of the stream",
  "The server executes exactly the requests encoded in a client's byte stream, with exactly the argument bytes given (including CR, LF, NUL and empty arguments), no matter how the stream is cut into segments; an incomplete request is not executed until its last byte arrives. Command names are recognised in any letter case.",
  ["inputs", "schedules"], "every request stream and every way of cutting it into segments",
  "The decoder tests feed four complete messages; the e2e test writes each request in one segment.",
  ["protocol/decode.go", "server/v2/server.go", "redis/command.go"],
  [st("connection buffer", "received bytes not yet decoded", "server/v2/server.go")],
  [me("DecodeFromReader", "protocol/decode.go"), me("React", "server/v2/server.go")],
  ["bytes written to and read from a client socket"])

p("C16", "Each request on a connection gets exactly one reply, in order",
  "On every connection the server sends exactly one reply per request and in the order of the requests, also when many requests are sent without waiting for replies or while other connections are busy. A reply is never lost, duplicated or delivered to another connection.",
  ["schedules", "histories"], "every pipelining depth, number of connections and scheduling of server tasks",
  "The e2e test sends one request per connection and does not look at the reply.",
  ["server/v2/server.go", "event/handler.go", "event/worker.go"],
  [st("pending requests", "decoded requests of a connection not yet answered", "server/v2/server.go")], None,
  ["bytes written to and read from each client socket"])

p("C17", "Every reply is one well-formed RESP value of the documented kind",
  "Whatever the request and the stored data, the reply is exactly one well-formed RESP value: bulk strings carry their exact byte length and bytes, arrays exactly the announced number of elements, and the kind of value (status, error, integer, bulk, nil, array) is the one documented for that command and outcome.",
  ["inputs", "histories"], "every command, outcome and stored byte string",
  "No test encodes a reply of any command.",
  ["protocol/encode.go", "redis/command.go", "redis/hash_table.go", "redis/string.go"], None,
  [me("Response.Encode", "protocol/encode.go")], ["raw reply bytes on the client connection"])

p("C18", "Commands of concurrent clients take effect atomically, one at a time",
  "Every concurrent history is linearizable: each command appears to take effect at one instant between its request and its reply, and all replies and the final store are those of executing the commands one after another in that order. No increment, push, pop or move is lost, doubled or seen half-done.",
  ["schedules", "histories"], "every number of clients and interleaving of their commands",
  "No test has two clients.",
  ["event/event_pool.go", "event/worker.go", "event/handler.go", "redis/command.go"],
  [st("event queue", "commands accepted and not yet executed", "event/event_pool.go")],
  [me("single worker", "event/worker.go")], ["request and reply instants of every client"],
  "yield points (build tag verif) to widen the interleavings")

p("C19", "Accepted commands run exactly once, one at a time, in order",
  "The execution queue runs every accepted command exactly once and in the order in which commands were accepted, never starts a command while another one is executing, and signals each submitter only after its own command has finished, with that command's own reply.",
  ["schedules"], "every interleaving of submitters and the worker",
  "The queue has no test; overlap and misdelivery depend on scheduling.",
  ["event/event_pool.go", "event/worker.go", "event/event.go", "event/handler.go"],
  [st("event queue", "accepted events", "event/event_pool.go")], [me("worker.run", "event/worker.go")],
  ["accept/begin/end/done events"], "add-only trace points in event and redis (build tag verif)")

p("C20", "No client input takes down the server or disturbs other clients",
  "No byte stream sent by a client, well-formed or not, makes the server process exit, hang or stop serving: other connections keep working with correct replies. A malformed stream is never executed beyond the valid requests before it; that connection is answered with an error and closed, and memory use stays proportional to what was actually sent.",
  ["inputs", "fault_sequences"], "every byte stream on a connection, including truncated, malformed and hostile ones, and disconnects at any point",
  "No test sends malformed input or disconnects early.",
  ["protocol/decode.go", "server/v2/server.go", "redis/command.go", "datastruct/keys.go"], None, None,
  ["server process liveness", "replies on a second connection"])

p("C21", "Stopping completes what was accepted and refuses the rest",
  "When the server is stopped while requests are in progress, every request accepted before is executed exactly once and answered with its result; requests arriving later are either answered that way or refused with an error and not executed. Stopping always terminates promptly, and never panics or hangs, however submitters and the stop interleave, also when it is repeated.",
  ["schedules", "crash_points"], "every interleaving of submitters, the worker and the stop",
  "The e2e test stops an idle server.",
  ["event/event_pool.go", "event/worker.go", "event/handler.go", "server/v2/server.go", "cmd/server/main.go"],
  [st("closed flag", "whether the queue still accepts", "event/event_pool.go")], None,
  ["HandleRequest returns", "replies on sockets", "process exit status"], "delay/trace points (build tag verif)")

p("C22", "The recorded text of a request is exactly what the client sent",
  "For every well-formed request, flat or nested, the raw text recorded for it equals byte for byte the text received, and decoding the recorded text again yields the same arguments. Re-executing the recorded requests of a single client in order on an empty server reproduces the same store.",
  ["inputs", "histories"], "every well-formed request and every recorded session",
  "Four flat messages are compared in the decoder test; nested arrays, replays and split reads are not.",
  ["protocol/decode.go", "persistence/persistence.go", "event/handler.go"], None, [me("addOrg/append", "protocol/decode.go")],
  ["recorded text on standard output"])

p("C23", "Results stay exact for large values, containers and key counts",
  "All command guarantees hold unchanged for values of many kilobytes, containers with thousands of elements, requests with thousands of arguments and stores with thousands of keys: no element, byte or key is lost, duplicated, reordered or truncated.",
  ["inputs", "histories"], "sizes well beyond buffers (64 KiB), shards (32) and tower heights",
  "All tests use at most ten elements.",
  ["server/v2/server.go", "protocol/decode.go", "protocol/encode.go", "datastruct/list.go", "datastruct/sorted_set.go", "lib/shard_map/shard_map.go"], None, None, REPLY)

p("C24", "The command table generator registers every handler under its name",
  "For every Go source file, the generator registers each command handler in it (a top-level `func Name(c *Command) (*protocol.Response, error)`, formatted as gofmt does) exactly once, under the name in the comment line directly above it (without slashes, trailing dot and surrounding blanks, in lower case) or else under its own lower-cased name, and nothing else. Files that are not Go sources or are themselves generated yield nothing, and the generator run on the repository's handlers yields exactly the command table the server serves.",
  ["programs"], "every handler source file",
  "The test matches one line against the regular expression; the parser and the writer are never run.",
  ["cmd/gen_redis_cmd/main.go", "redis/keys.cmd.go", "redis/string.cmd.go", "redis/list.cmd.go", "redis/set.cmd.go", "redis/hash_table.cmd.go", "redis/sorted_set.cmd.go"], None,
  [me("readAndParseFile", "cmd/gen_redis_cmd/main.go")], ["the generated file"])

p("C25", "A configuration load takes effect as a whole or not at all",
  "After a successful load the configured timeout is the one in the loaded document, or the built-in five seconds if the document sets none or zero; a load that fails returns an error and leaves the configuration in force unchanged.",
  ["inputs", "histories"], "every sequence of successful and failing loads",
  "The package has no test.",
  ["config/config.go"], [st("cfg", "configuration in force", "config/config.go")], None, ["GetDefaultTimeout"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
