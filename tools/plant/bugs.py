"""The planted bugs: each a list of (file, old, new) edits of the tree, a demonstration, and what it needs."""
BUGS = {}


def bug(id, prop, edits, needs, breaks, py=None, go=None, pkg=None):
    BUGS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, py=py, go=go, pkg=pkg)


bug("linsert-before-prev", "C03", [("datastruct/list.go", """		newNode.prev = prev
		prev.next = newNode
	}

	return true
}

func (l *List) findNode""", """		prev.next = newNode
	}

	return true
}

func (l *List) findNode""")],
    "LINSERT BEFORE an inner element, then enough RPOPs (or a negative LREM) to walk backwards over the new element",
    "the part of the list before an inserted element is lost for operations which come from the tail",
    py="""
def f(s):
    c = s.client()
    c("rpush", "l", "a", "b", "c")
    expect("linsert", c("linsert", "l", "before", "b", "x"), 4)
    expect("lrange", c("lrange", "l", "0", "-1"), ["a", "x", "b", "c"])
    expect("rpop", [c("rpop", "l") for _ in range(4)], [["c"], ["b"], ["x"], ["a"]])
""")

bug("linsert-counts-first", "C12", [("datastruct/list.go", """	node := l.findNode(target)
	if node == nil {
		return false
	}

	if flag == 0 {""", """	if flag != 0 {
		l.length++
	}

	node := l.findNode(target)
	if node == nil {
		return false
	}

	if flag == 0 {"""), ("datastruct/list.go", """	newNode := &listNode{value: newValue}
	l.length++
""", """	newNode := &listNode{value: newValue}
""")],
    "LINSERT with a pivot which is not in the list, then anything which depends on the length",
    "a refused LINSERT changes the length of the list",
    py="""
def f(s):
    c = s.client()
    c("rpush", "l", "a", "b", "c")
    expect("refused", type(c("linsert", "l", "after", "nope", "x")), Err)
    expect("llen", c("llen", "l"), 3)
    expect("lindex", c("lindex", "l", "-1"), "c")
""")

bug("mset-shares-info", "C14", [("datastruct/string.go", """	for i := 0; i < len(kvs)-1; i += 2 {
		Set(kvs[i], kvs[i+1])
	}
""", """	// equal values are held once
	infos := make(map[string]*KeyInfo, len(kvs)/2)
	for i := 0; i < len(kvs)-1; i += 2 {
		info, ok := infos[kvs[i+1]]
		if !ok {
			info = &KeyInfo{Type: KeyTypeString, Value: kvs[i+1]}
			infos[kvs[i+1]] = info
		}

		defaultCache.keys.Set(kvs[i], info)
	}
""")],
    "one MSET which gives two keys the same value, then APPEND or INCR of one of them",
    "a command changes a key which it does not name",
    py="""
def f(s):
    c = s.client()
    expect("mset", c("mset", "a", "7", "b", "8", "d", "7"), "OK")
    expect("incr", c("incr", "a"), 8)
    expect("mget", c("mget", "a", "b", "d"), ["8", "8", "7"])
""")

bug("incr-base-zero", "C02", [("datastruct/string.go", "strconv.ParseInt(info.Value.(string), 10, 64)", "strconv.ParseInt(info.Value.(string), 0, 64)")],
    "a stored number with a leading zero, or a value like 0x10 or 1_000",
    "INCR of 010 replies 9, and values which are no decimal numbers are not refused",
    py="""
def f(s):
    c = s.client()
    c("set", "a", "010")
    expect("incr", c("incr", "a"), 11)
    c("set", "b", "1_000")
    expect("incr", type(c("incrby", "b", "5")), Err)
    expect("get", c("get", "b"), "1_000")
""")

bug("union-of-one", "C05", [("datastruct/set.go", """func sUnion(sets ...*set) *set {
	var result = newSet()
	for _, s := range sets {""", """func sUnion(sets ...*set) *set {
	if len(sets) == 1 {
		// nothing to merge
		return sets[0]
	}

	result := newSet()
	for _, s := range sets {""")],
    "a store command with a single source, then a change of either of the two sets",
    "the stored set shares its members with its source",
    py="""
def f(s):
    c = s.client()
    c("sadd", "s", "a", "b")
    expect("store", c("sunionstore", "d", "s"), 2)
    expect("sadd", c("sadd", "d", "x"), 1)
    expect("source", sorted(c("smembers", "s")), ["a", "b"])
""")

bug("zset-update-in-place", "C08", [("datastruct/sorted_set.go", """	if (x.backward == nil || x.backward.score < newScore) &&
		(x.levels[0].forward == nil || x.levels[0].forward.score > newScore) {""",
"""	if (x.backward == nil || x.backward.score <= newScore) &&
		(x.levels[0].forward == nil || x.levels[0].forward.score >= newScore) {""")],
    "ZADD which moves a member to the score of its neighbour, when the name order of the two is the other one",
    "members of equal score are no longer in the order of their names, later updates and removals of them fail",
    py="""
def f(s):
    c = s.client()
    c("zadd", "z", "1", "b", "2", "a")
    expect("zadd", c("zadd", "z", "2", "b"), 1)
    expect("zrange", c("zrange", "z", "0", "-1"), ["a", "b"])
    c("zadd", "y", "1", "b", "2", "a")
    c("zadd", "y", "1", "a")
    expect("zrange", c("zrange", "y", "0", "-1"), ["a", "b"])
""")

bug("zset-delete-span", "C08", [("datastruct/sorted_set.go", """	for i := 0; i < zsl.level; i++ {
		if update[i].levels[i].forward == node {""", """	for i := range node.levels {
		if update[i].levels[i].forward == node {""")],
    "removal of a member whose node is lower than the skip list (chance, likely from about ten members)",
    "ranks and rank ranges disagree with the order after a removal",
    py="""
def f(s):
    c = s.client()
    for k in range(20):
        order = [(i * 37) % 101 for i in range(101)]
        for i in order:
            c("zadd", "z%d" % k, i, "m%03d" % i)
        left = [i for i in range(101) if i % 7 != 3]
        for i in range(101):
            if i % 7 == 3:
                c("zrem", "z%d" % k, "m%03d" % i)
        for r, i in enumerate(left):
            expect("zrank %d" % i, c("zrank", "z%d" % k, "m%03d" % i), r)
            expect("zrange %d" % i, c("zrange", "z%d" % k, r, r), ["m%03d" % i])
""")

bug("score-inf-exclusive", "C09", [("datastruct/sorted_set.go", """	str = strings.ToLower(str)
	switch str {
	case "-inf":""", """	str = strings.ToLower(str)
	switch strings.TrimPrefix(str, "(") {
	case "-inf":""")],
    "a member whose score is infinite and an interval bound (-inf or (+inf",
    "an exclusive infinite bound includes the members at infinity",
    py="""
def f(s):
    c = s.client()
    c("zadd", "z", "-inf", "lo", "1", "m", "+inf", "hi")
    expect("zcount", c("zcount", "z", "(-inf", "(+inf"), 1)
    expect("zrangebyscore", c("zrangebyscore", "z", "-inf", "(+inf"), ["lo", "m"])
""")

bug("upsert-before-abort", "C12", [("lib/shard_map/shard_map.go", """	res, abort = f(ok, old, value)
	if abort {
		return
	}
	shard.items[key] = res
	return""", """	res, abort = f(ok, old, value)
	shard.items[key] = res
	return""")],
    "a refused HINCRBY or HINCRBYFLOAT of a field which holds something else",
    "the refused command replaces the value of the field",
    py="""
def f(s):
    c = s.client()
    c("hset", "h", "f", "text", "g", "9223372036854775807")
    expect("hincrby", type(c("hincrby", "h", "f", "1")), Err)
    expect("hget", c("hget", "h", "f"), "text")
    expect("hincrby", type(c("hincrby", "h", "g", "1")), Err)
    expect("hget", c("hget", "h", "g"), "9223372036854775807")
""")

bug("store-keeps-type", "C10", [("datastruct/set.go", """	defaultCache.keys.Set(storeKey, &KeyInfo{
		Type:  KeyTypeSet,
		Value: result,
	})
	dropIfEmpty(storeKey, result.length)

	return result.length, nil
}

// SUnion""", """	if v, ok := defaultCache.keys.Get(storeKey); ok {
		// the key stays, its value changes
		v.(*KeyInfo).Value = result
	} else {
		defaultCache.keys.Set(storeKey, &KeyInfo{
			Type:  KeyTypeSet,
			Value: result,
		})
	}
	dropIfEmpty(storeKey, result.length)

	return result.length, nil
}

// SUnion""")],
    "SINTERSTORE with a non-empty result onto a key which holds another type",
    "the key then has a value which is not of its type, the next command of that type ends the server",
    py="""
def f(s):
    c = s.client()
    c("sadd", "s", "a", "b")
    c("set", "d", "text")
    expect("store", c("sinterstore", "d", "s", "s"), 2)
    expect("type", c("type", "d"), c("type", "s"))
    expect("scard", c("scard", "d"), 2)
""")

bug("hash-base-zero", "C07", [("util/strconv.go", "i64, err := strconv.ParseInt(s, 10, 64)", "i64, err := strconv.ParseInt(s, 0, 64)")],
    "a field set to something like 010, 0x10 or 1_000, then HINCRBY",
    "HINCRBY adds to another number than the decimal one, and no longer refuses what is none",
    py="""
def f(s):
    c = s.client()
    c("hset", "h", "a", "010", "b", "0x10")
    expect("hget", c("hget", "h", "a"), "010")
    expect("hincrby", c("hincrby", "h", "a", "1"), 11)
    expect("hincrby", type(c("hincrby", "h", "b", "1")), Err)
""")

bug("spop-all", "C11", [("datastruct/set.go", """	var (
		result []string
	)
	s.m.RangeAndDelete(func""", """	var result []string
	if cnt > s.length {
		// takes everything
		result = s.m.Keys()
		s.m = smap.New()
		return result
	}

	s.m.RangeAndDelete(func""")],
    "SPOP with a count above the number of members",
    "the emptied set goes on to exist with its old cardinality",
    py="""
def f(s):
    c = s.client()
    c("sadd", "s", "a", "b")
    expect("spop", sorted(c("spop", "s", "3")), ["a", "b"])
    expect("exists", c("exists", "s"), 0)
    expect("scard", c("scard", "s"), 0)
""")

bug("bulk-trim-right", "C15", [("protocol/decode.go", "	r.Elements = append(r.Elements, ele)", "	r.Elements = append(r.Elements, strings.TrimRight(ele, CRLF))")],
    "an argument which ends with a carriage return or a newline",
    "the argument the command gets is shorter than the one which was sent",
    py="""
def f(s):
    c = s.client()
    c("set", "k", "text\\n")
    expect("get", c("get", "k"), "text\\n")
    c("rpush", "l", "\\r", "\\r\\n")
    expect("lrange", c("lrange", "l", "0", "-1"), ["\\r", "\\r\\n"])
""")

bug("record-nested-header", "C22", [("protocol/decode.go", """	r.addOrg(string(line))

	desc = line[0]
""", """	desc = line[0]
	if desc != descriptionArrays || len(r.Elements) == 0 {
		// an array is recorded with its elements
		r.addOrg(string(line))
	}

""")],
    "a request with an array inside of an array, after its first element",
    "the recorded text lacks the header of the inner array",
    py="""
def f(s):
    c = s.client()
    req = b"*3\\r\\n$3\\r\\nSET\\r\\n*1\\r\\n$3\\r\\nkey\\r\\n$1\\r\\nv\\r\\n"
    c.raw(req)
    expect("set", c.read(), "OK")
    expect("ping", c("ping"), "PONG")
    expect("record", req in s.output(), True)
""")

bug("record-as-format", "C22", [("persistence/persistence.go", "	fmt.Println(r.OrgStr)", '	fmt.Printf(r.OrgStr + "\\n")')],
    "a request with a percent sign",
    "the recorded text is not what the client sent",
    py="""
def f(s):
    c = s.client()
    expect("set", c("set", "k", "100%d"), "OK")
    expect("record", enc("set", "k", "100%d") in s.output(), True)
""")

bug("empty-as-nil", "C17", [("protocol/encode.go", """		if ri.Value == nil {
			_, _""", """		if ri.Value == nil || ri.Value == "" {
			_, _""")],
    "an empty string as a value or member",
    "an existing empty value is replied as a missing one",
    py="""
def f(s):
    c = s.client()
    c("set", "k", "")
    expect("get", c("get", "k"), "")
    expect("mget", c("mget", "k", "none"), ["", None])
    c("rpush", "l", "")
    expect("lindex", c("lindex", "l", "0"), "")
""")

bug("spop-capacity", "C20", [("datastruct/set.go", """	var (
		result []string
	)
	s.m.RangeAndDelete(func""", """	var (
		result = make([]string, 0, cnt)
	)
	s.m.RangeAndDelete(func""")],
    "SPOP of an existing set with a negative or a huge count",
    "one request ends the server",
    py="""
def f(s):
    c = s.client()
    c("sadd", "s", "a", "b")
    c("spop", "s", "-1")
    d = s.client()
    expect("scard", d("scard", "s"), 2)
""")

bug("list-index-end", "C20", [("datastruct/list.go", "if i >= l.length || i < 0 {", "if i > l.length || i < 0 {")],
    "LINDEX or LSET with an index which equals the length of the list",
    "the server ends",
    py="""
def f(s):
    c = s.client()
    c("rpush", "l", "a", "b", "c", "d")
    expect("lindex", c("lindex", "l", "4"), None)
    d = s.client()
    expect("llen", d("llen", "l"), 4)
""")

bug("shared-encode-buffer", "C18", [("protocol/encode.go", """func (r *Response) Encode() []byte {
	buf := new(bytes.Buffer)
""", """// commands run one at a time, so one buffer is enough
var encodeBuf bytes.Buffer

func (r *Response) Encode() []byte {
	buf := &encodeBuf
	buf.Reset()
""")],
    "replies of two connections which are encoded at the same time",
    "a client gets the reply of another client, or a mixture of two",
    py="""
import threading

def f(s):
    bad = []
    def work(n):
        try:
            c = s.client()
            v = chr(97 + n) * 3000
            c("set", "k%d" % n, v)
            for _ in range(1500):
                if c("get", "k%d" % n) != v:
                    bad.append(n)
                    return
        except Exception as e:
            bad.append(e)
    ts = [threading.Thread(target=work, args=(n,)) for n in range(8)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    expect("foreign replies", bad, [])
""")

bug("reads-aside", "C18", [("event/handler.go", """	if cmd == nil {
		return nil
	}
""", """	switch {
	case cmd == nil:
		return nil
	case cmd.Command == "mget" || cmd.Command == "sinter":
		// only reads, needs not to be queued
		return (<-cmd.ExecuteAsync()).Encode()
	}
""")],
    "MGET or SINTER of one client while another client writes the same keys in one command",
    "a reader sees half of a write, or the runtime ends the server for concurrent map access",
    py="""
import threading

def f(s):
    bad = []
    ks = ["k%d" % i for i in range(200)]
    def write():
        try:
            c = s.client()
            for n in range(1500):
                c("mset", *[x for k in ks for x in (k, n)])
        except Exception as e:
            bad.append(repr(e))
    def read():
        try:
            c = s.client()
            for _ in range(1500):
                r = c("mget", *ks)
                if len(set(r)) != 1:
                    bad.append("torn")
                    return
        except Exception as e:
            bad.append(repr(e))
    ts = [threading.Thread(target=t) for t in (write, read, read)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    expect("torn reads", bad, [])
""")

bug("two-workers", "C19", [("event/event_pool.go", "	ep.startWorker(1)", "	ep.startWorker(2)")],
    "two commands which are queued at the same time",
    "commands run at the same time",
    pkg="event", go="""
package event

import (
	"context"
	"fmt"
	"testing"

	"github.com/yusank/godis/protocol"
	"github.com/yusank/godis/redis"
)

func TestDemo(t *testing.T) {
	const n = 4000
	var es []*Event
	done := make(chan struct{})
	ep := NewEventPool()
	for i := 0; i < n; i++ {
		es = append(es, NewEvent(redis.NewCommandFromReceive(context.Background(),
			&protocol.Receive{Elements: []string{"rpush", "demo-order", fmt.Sprint(i)}})))
	}
	go func() {
		defer close(done)
		for _, e := range es {
			<-e.Done()
		}
	}()
	for _, e := range es {
		if err := ep.AddEvent(e); err != nil {
			t.Fatal(err)
		}
	}
	<-done
	for i, e := range es {
		if got, want := string(e.Rsp.Encode()), fmt.Sprintf(":%d\\r\\n", i+1); got != want {
			t.Fatalf("event %d: %q, want %q", i, got, want)
		}
	}
}
""")

bug("async-enqueue", "C19", [("event/event_pool.go", """	ep.eventChan <- e
	return nil
""", """	select {
	case ep.eventChan <- e:
	default:
		// the queue is full, do not block the caller
		go func() { ep.eventChan <- e }()
	}

	return nil
""")],
    "an event which comes while the queue is full",
    "accepted events overtake each other, and one which comes before Stop may panic instead of being executed",
    pkg="event", go="""
package event

import (
	"context"
	"fmt"
	"testing"

	"github.com/yusank/godis/protocol"
	"github.com/yusank/godis/redis"
)

func TestDemo(t *testing.T) {
	const n = 2000
	var es []*Event
	ep := NewEventPool()
	for i := 0; i < n; i++ {
		e := NewEvent(redis.NewCommandFromReceive(context.Background(),
			&protocol.Receive{Elements: []string{"rpush", "demo-order", fmt.Sprint(i)}}))
		if err := ep.AddEvent(e); err != nil {
			t.Fatal(err)
		}
		es = append(es, e)
	}
	for i, e := range es {
		<-e.Done()
		if got, want := string(e.Rsp.Encode()), fmt.Sprintf(":%d\\r\\n", i+1); got != want {
			t.Fatalf("event %d: %q, want %q", i, got, want)
		}
	}
}
""")

bug("stop-does-not-wait", "C21", [("event/event_pool.go", """	ep.mu.Unlock()

	ep.wg.Wait()
}""", """	ep.mu.Unlock()

	// the workers end once the closed queue is empty
	go ep.wg.Wait()
}""")],
    "Stop while an accepted command is still running or queued",
    "Stop returns before what was accepted is executed",
    pkg="event", go="""
package event

import (
	"context"
	"testing"

	"github.com/yusank/godis/protocol"
	"github.com/yusank/godis/redis"
)

func TestDemo(t *testing.T) {
	args := []string{"rpush", "demo-slow"}
	for i := 0; i < 300000; i++ {
		args = append(args, "x")
	}
	ep := NewEventPool()
	var es []*Event
	for i := 0; i < 3; i++ {
		e := NewEvent(redis.NewCommandFromReceive(context.Background(), &protocol.Receive{Elements: args}))
		if err := ep.AddEvent(e); err != nil {
			t.Fatal(err)
		}
		es = append(es, e)
	}
	ep.Stop()
	for i, e := range es {
		select {
		case <-e.Done():
		default:
			t.Fatalf("event %d is not done", i)
		}
	}
}
""")

bug("table-not-truncated", "C24", [("cmd/gen_redis_cmd/main.go", "	f, err := os.Create(name)", "	f, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE, 0666)")],
    "generating again after a handler was removed or got a shorter name",
    "the new table is followed by the end of the old one and does not compile",
    pkg="cmd/gen_redis_cmd", go="""
package main

import (
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	name := filepath.Join(t.TempDir(), "x.go")
	h := "\\n// %.\\nfunc %(c *Command) (*protocol.Response, error) {\\n\\treturn nil, nil\\n}\\n"
	gen := func(names ...string) string {
		src := "package redis\\n"
		for _, n := range names {
			for _, r := range h {
				if r == '%' {
					src += n
				} else {
					src += string(r)
				}
			}
		}
		if err := os.WriteFile(name, []byte(src), 0600); err != nil {
			t.Fatal(err)
		}
		kvs, err := readAndParseFile(name)
		if err != nil {
			t.Fatal(err)
		}
		if err = writeFile(name, kvs); err != nil {
			t.Fatal(err)
		}
		b, err := os.ReadFile(filepath.Join(filepath.Dir(name), "x.cmd.go"))
		if err != nil {
			t.Fatal(err)
		}
		return string(b)
	}
	want := gen("one")
	gen("one", "two")
	if got := gen("one"); got != want {
		t.Fatalf("got %q, want %q", got, want)
	}
}
""")

bug("config-in-place", "C25", [("config/config.go", """	tmp := new(Config)
	if err := d.Decode(tmp); err != nil {
		return err
	}

	cfg = tmp
	return nil
""", """	if cfg == nil {
		cfg = new(Config)
	}

	return d.Decode(cfg)
""")],
    "a second load, of a document which lacks the timeout or whose later part is invalid",
    "a load does not replace the configuration as a whole, a failed one changes it",
    pkg="config", go="""
package config

import (
	"strings"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	if err := InitConfig(strings.NewReader("default_timeout: 7s\\n")); err != nil {
		t.Fatal(err)
	}
	if err := InitConfig(strings.NewReader("default_timeout: 9s\\npersistence: [1]\\n")); err == nil {
		t.Fatal("no error")
	}
	if d := GetDefaultTimeout(); d != 7*time.Second {
		t.Fatal("changed by a failed load: ", d)
	}
	if err := InitConfig(strings.NewReader("persistence: aof\\n")); err != nil {
		t.Fatal(err)
	}
	if d := GetDefaultTimeout(); d != 5*time.Second {
		t.Fatal("not replaced: ", d)
	}
}
""")

bug("mset-last-first", "C01", [("datastruct/string.go", """	for i := 0; i < len(kvs)-1; i += 2 {
		Set(kvs[i], kvs[i+1])
	}
""", """	for i := len(kvs) - 2; i >= 0; i -= 2 {
		Set(kvs[i], kvs[i+1])
	}
""")],
    "one MSET which names the same key twice",
    "the first pair of a key wins over the later one",
    py="""
def f(s):
    c = s.client()
    expect("mset", c("mset", "k", "1", "j", "2", "k", "3"), "OK")
    expect("mget", c("mget", "k", "j"), ["3", "2"])
""")

bug("smove-onto-itself", "C04", [("datastruct/set.go", """	// refuse a wrong target before anything is moved
	if _, err = loadAndCheckSet(target, false); err != nil && err != ErrNil {
		return 0, err
	}
""", """	// refuse a wrong target before anything is moved
	tset, err := loadAndCheckSet(target, false)
	if err != nil && err != ErrNil {
		return 0, err
	}
"""), ("datastruct/set.go", """	if sset.sRem(value) == 0 {
		// not exist
		return 0, ErrNil
	}

	dropIfEmpty(source, sset.length)
	if _, err = SAdd(target, value); err != nil {
		return 0, err
	}

	return 1, nil
""", """	if !sset.m.Has(value) {
		return 0, ErrNil
	}

	sset.sRem(value)
	dropIfEmpty(source, sset.length)
	if tset == nil {
		return SAdd(target, value)
	}

	tset.sAdd(value)
	return 1, nil
""")],
    "SMOVE with the same key as source and destination, holding that one member only",
    "the set vanishes, its member is lost",
    py="""
def f(s):
    c = s.client()
    c("sadd", "t", "a")
    expect("smove", c("smove", "t", "t", "a"), 1)
    expect("smembers", c("smembers", "t"), ["a"])
    expect("exists", c("exists", "t"), 1)
""")

bug("hset-counts-repeats", "C06", [("datastruct/hash_table.go", """	if !h.table.Has(field) {
		h.length++
	}

	h.table.Set(field, v)
""", """	h.table.Set(field, v)
"""), ("datastruct/hash_table.go", """	var cnt int
	for _, kv := range kvs {
		cnt += h.set(kv.Key, kv.Value, flag)
	}

	return cnt, err
""", """	if flag&HSetInNx == 0 {
		// the table grows by the fields which are new
		for _, kv := range kvs {
			if !h.exists(kv.Key) {
				h.length++
			}
		}
	}

	var cnt int
	for _, kv := range kvs {
		cnt += h.set(kv.Key, kv.Value, flag)
	}

	return cnt, err
""")],
    "one HSET or HMSET which names the same new field twice",
    "HLEN counts the field twice and the hash never becomes empty",
    py="""
def f(s):
    c = s.client()
    expect("hset", c("hset", "h", "f", "1", "g", "2", "f", "3"), 3)
    expect("hlen", c("hlen", "h"), 2)
    expect("hdel", c("hdel", "h", "f", "g"), 2)
    expect("exists", c("exists", "h"), 0)
""")

bug("keys-literal-shortcut", "C13", [("datastruct/keys.go", """	defaultCache.keys.Range""", """	if !strings.ContainsAny(pattern, "*?[{") {
		// there is nothing to expand
		if Exists(pattern) {
			keys = append(keys, pattern)
		}
		return keys, nil
	}

	defaultCache.keys.Range"""), ("datastruct/keys.go", """import (
	smap""", """import (
	"strings"

	smap"""), ("datastruct/keys.go", """func loadKeyInfo(key string, tp KeyType) (info *KeyInfo, err error) {
	v, ok := defaultCache.keys.Get(key)
	if !ok {
		return nil, ErrNil
	}

	info = v.(*KeyInfo)
	if info.Type != tp {
		return nil, ErrKeyAndCommandNotMatch
	}

	return info, nil
}
""", """func loadKeyInfo(key string, tp KeyType) (*KeyInfo, error) {
	v, ok := defaultCache.keys.Get(key)
	if !ok {
		return nil, ErrNil
	}

	info := v.(*KeyInfo)
	if info.Type != tp {
		return nil, ErrKeyAndCommandNotMatch
	}

	return info, nil
}
""")],
    "a pattern whose only special character is a backslash which quotes an ordinary one",
    "KEYS does not list the key",
    py="""
def f(s):
    c = s.client()
    c("mset", "ab", "1", "cd", "2")
    expect("keys", c("keys", "\\\\ab"), ["ab"])
    expect("keys", c("keys", "c\\\\d"), ["cd"])
""")

bug("few-connections", "C16", [("server/v2/server.go", """	return &Server{
		EventServer: nil,
		pool:        p,
	}
""", """	// a connection keeps one goroutine
	p.Tune(256)
	return &Server{pool: p}
""")],
    "more than 256 connections at the same time",
    "the requests of the other connections are never answered",
    py="""
def f(s):
    cs = [s.client() for _ in range(300)]
    for i, c in enumerate(cs):
        expect("connection %d" % i, c("ping"), "PONG")
""")

bug("rank-uint16", "C23", [("datastruct/sorted_set.go", """	var rank uint
	x := zsl.head
LevelLoop:""", """	var rank uint16
	x := zsl.head
LevelLoop:"""), ("datastruct/sorted_set.go", """			rank += x.levels[i].span
			x = x.levels[i].forward
			if x.score == score && x.value == value {
				break LevelLoop
			}
		}
	}

	return rank
""", """			rank += uint16(x.levels[i].span)
			x = x.levels[i].forward
			if x.score == score && x.value == value {
				break LevelLoop
			}
		}
	}

	return uint(rank)
""")],
    "a sorted set of more than 65535 members",
    "ZRANK of the members behind is wrong",
    py="""
def f(s):
    c = s.client()
    for j in range(0, 70000, 1000):
        c("zadd", "z", *sum(([i, "m%d" % i] for i in range(j, j + 1000)), []))
    expect("zcard", c("zcard", "z"), 70000)
    expect("zrank", c("zrank", "z", "m69000"), 69000)
""")

bug("sinter-stops-early", "C10", [("datastruct/set.go", """// SInter 交集
func SInter(keys ...string) ([]string, error) {
	var result *set

	for i, key := range keys {
		s, err := loadSetOrEmpty(key)
		if err != nil {
			return nil, err
		}

		if i == 0 {
			result = s
			continue
		}

		result = sInter(result, s)
	}
""", """// SInter 交集
func SInter(keys ...string) ([]string, error) {
	var result *set

	for _, key := range keys {
		s, err := loadSetOrEmpty(key)
		if err != nil {
			return nil, err
		}

		if result == nil {
			result = s
		} else {
			result = sInter(result, s)
		}

		if result.length == 0 {
			// nothing is left for the other keys
			return nil, ErrNil
		}
	}
""")],
    "SINTER of a missing key (or disjoint sets) and, behind it, a key which holds another type",
    "SINTER replies an empty array where it has to refuse",
    py="""
def f(s):
    c = s.client()
    c("sadd", "a", "x")
    c("set", "str", "v")
    expect("refused", type(c("sinter", "a", "nope", "str")), Err)
""")

bug("zrevrange-from-tail", "C08", [("datastruct/sorted_set.go", """	node := zsl.findElementByRank(uint(zsl.length - start))
""", """	node := zsl.tail
	if start > 0 {
		node = zsl.findElementByRank(uint(zsl.length - start))
	}
""") , ("datastruct/sorted_set.go", """	if node.levels[0].forward != nil {
		node.levels[0].forward.backward = node.backward
	}
""", """	if next := node.levels[0].forward; next != nil {
		next.backward = node.backward
	} else if len(node.levels) == 1 {
		zsl.tail = node.backward
	}
""")],
    "the member with the highest score is removed, and its node is higher than one level (one in four), then ZREVRANGE from 0",
    "ZREVRANGE starts with a member which is gone",
    py="""
def f(s):
    c = s.client()
    for i in range(60):
        c("zadd", "z", str(i), "m%d" % i)
    for i in range(59, 0, -1):
        expect("zrem", c("zrem", "z", "m%d" % i), 1)
        expect("zrevrange", c("zrevrange", "z", "0", "0"), ["m%d" % (i - 1)])
""")

bug("hsetnx-empty-value", "C06", [("datastruct/hash_table.go", """		if h.table.SetIfAbsent(field, v) {
			h.length++
			return 1
		}

		return 0
""", """		old, ok := h.table.Get(field)
		if ok && old != "" {
			return 0
		}

		if !ok {
			h.length++
		}

		h.table.Set(field, v)
		return 1
""")],
    "HSETNX of a field which holds the empty string",
    "HSETNX overwrites an existing field",
    py="""
def f(s):
    c = s.client()
    c("hset", "h", "f", "")
    expect("hsetnx", c("hsetnx", "h", "f", "v"), 0)
    expect("hget", c("hget", "h", "f"), "")
""")

bug("union-store-in-place", "C05", [("datastruct/set.go", """func SUnionStore(storeKey string, keys ...string) (int, error) {
	var result *set

	for i, key := range keys {
		s, err := loadSetOrEmpty(key)
		if err != nil {
			return 0, err
		}

		if i == 0 {
			// copy, the stored set must not share with its source
			result = sUnion(s)
			continue
		}

		result = sUnion(result, s)
	}
""", """func SUnionStore(storeKey string, keys ...string) (int, error) {
	var result *set

	for i, key := range keys {
		s, err := loadSetOrEmpty(key)
		if err != nil {
			return 0, err
		}

		if i == 0 && len(keys) > 2 && key == storeKey {
			// the set is extended where it is
			result = s
			continue
		}

		if i == 0 {
			// copy, the stored set must not share with its source
			result = sUnion(s)
			continue
		}

		if result.length == 0 || result.m.Has(storeKey) {
			result = sUnion(result, s)
			continue
		}

		for _, member := range s.m.Keys() {
			result.sAdd(member)
		}
	}
""")],
    "SUNIONSTORE of three or more sources, the first of them the destination and a later one of another type",
    "a refused SUNIONSTORE changes its destination",
    py="""
def f(s):
    c = s.client()
    c("sadd", "a", "x")
    c("sadd", "b", "y")
    c("set", "str", "v")
    expect("refused", type(c("sunionstore", "a", "a", "b", "str")), Err)
    expect("scard", c("scard", "a"), 1)
""")
BUGS["union-store-in-place"]["prop"] = "C12"

bug("keys-prefix-shortcut", "C13", [("datastruct/keys.go", """	defaultCache.keys.Range(func(key string, _ interface{}) bool {
		if re.MatchString(readable(key)) {
			keys = append(keys, key)
		}
		return true
	})

	return
}
""", """	// a plain prefix needs no regular expression
	prefix := strings.TrimSuffix(pattern, "*")
	plain := prefix != pattern && !strings.ContainsAny(prefix, "*?[")
	defaultCache.keys.Range(func(name string, _ interface{}) bool {
		match := plain && strings.HasPrefix(name, prefix)
		if match || !plain && re.MatchString(readable(name)) {
			keys = append(keys, name)
		}
		return true
	})

	return
}
"""), ("datastruct/keys.go", """import (
	smap""", """import (
	"strings"

	smap""")],
    "a pattern which ends with a star and quotes a character before it with a backslash",
    "KEYS misses the keys, or lists ones which only match literally",
    py="""
def f(s):
    c = s.client()
    c("mset", "a?b", "1", "axb", "2")
    expect("keys", c("keys", "a\\\\?*"), ["a?b"])
    expect("keys", c("keys", "a\\\\x*"), ["axb"])
""")

bug("incr-formats-itself", "C02", [("datastruct/string.go", """	info.Value = strconv.FormatInt(value, 10)

	return
}
""", """	info.Value = formatInt(value)

	return
}

// formatInt is strconv.FormatInt in base ten
func formatInt(v int64) string {
	if v == 0 {
		return "0"
	}

	var (
		buf [20]byte
		i   = len(buf)
		neg = v < 0
	)

	if neg {
		v = -v
	}

	for ; v > 0; v /= 10 {
		i--
		buf[i] = byte('0' + v%10)
	}

	if neg {
		i--
		buf[i] = '-'
	}

	return string(buf[i:])
}
""")],
    "a counter which is decremented to exactly -9223372036854775808",
    "the reply is right, but the key holds a lone minus sign",
    py="""
def f(s):
    c = s.client()
    c("set", "n", "-9223372036854775807")
    expect("decr", c("decr", "n"), -9223372036854775808)
    expect("get", c("get", "n"), "-9223372036854775808")
""")

bug("length-six-digits", "C23", [("protocol/encode.go", """		lnStr := strconv.Itoa(len(str))
		_, _ = buf.WriteString(util.StringConcat(len(str)+len(lnStr)+5, "$", lnStr, CRLF, str, CRLF))
""", """		// room for the length is at hand
		num := strconv.AppendInt(make([]byte, 0, 6), int64(len(str)), 10)
		lnStr := string(num[:6-max(0, 6-len(num))])
		_, _ = buf.WriteString(util.StringConcat(len(str)+len(lnStr)+5, "$", lnStr, CRLF, str, CRLF))
"""), ("protocol/encode.go", """func (ri *ResponseItem) encode(buf *bytes.Buffer) {
	if buf == nil {
		return
	}
""", """func max(a, b int) int {
	if a > b {
		return a
	}

	return b
}

func (ri *ResponseItem) encode(buf *bytes.Buffer) {
	if buf == nil {
		return
	}
""")],
    "a value of a million bytes or more",
    "the length in front of the value lacks its last digits",
    py="""
def f(s):
    c = s.client()
    v = "0123456789" * 100000
    c("set", "k", v)
    expect("get", c("get", "k") == v, True)
""")

bug("stop-discards-queued", "C21", [("event/worker.go", """		e.Rsp = <-e.Cmd.ExecuteAsync()
		close(e.done)
""", """		if w.stopping() {
			// the server is going down
			e.Rsp = protocol.NewResponseWithError(ErrStopped)
			close(e.done)
			continue
		}

		e.Rsp = <-e.Cmd.ExecuteAsync()
		close(e.done)
"""), ("event/worker.go", """import (
	"log"
	"sync"
)""", """import (
	"log"
	"sync"

	"github.com/yusank/godis/protocol"
)"""), ("event/worker.go", """func (w *worker) run(wg *sync.WaitGroup) {
	defer wg.Done()
""", """func (w *worker) stopping() bool {
	w.ep.mu.RLock()
	defer w.ep.mu.RUnlock()
	return w.ep.stopped
}

func (w *worker) run(wg *sync.WaitGroup) {
	defer func() { wg.Done() }()
""")],
    "a stop while a command is queued behind a running one",
    "a command which was accepted before the stop is not executed",
    pkg="event", go="""
package event

import (
	"context"
	"fmt"
	"testing"

	"github.com/yusank/godis/protocol"
	"github.com/yusank/godis/redis"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 300; i++ {
		ep := NewEventPool()
		var es []*Event
		n := 0
		for j := 0; j < 3; j++ {
			e := NewEvent(redis.NewCommandFromReceive(context.Background(),
				&protocol.Receive{Elements: []string{"rpush", fmt.Sprint("demo-stop", i), "x"}}))
			if ep.AddEvent(e) == nil {
				n++
			}
			es = append(es, e)
		}
		ep.Stop()
		for j, e := range es {
			<-e.Done()
			if s := string(e.Rsp.Encode()); s != fmt.Sprintf(":%d\\r\\n", j+1) {
				t.Fatalf("accepted, but told %q", s)
			}
		}
	}
}
""")

bug("lrem-leaves-sentinel", "C03", [("datastruct/list.go", """		// // In other words, l.head.tail will be not nil
		l.head.prev = nil
""", """		// // In other words, l.head.tail will be not nil
		if l.head == l.tail {
			l.head.prev = nil
		}
""")],
    "a positive LREM removes the first element, then a negative LREM of the empty string walks to the front",
    "the walk from the tail also counts a node which belongs to no list",
    py="""
def f(s):
    c = s.client()
    c("rpush", "l", "a", "b", "c")
    expect("lrem", c("lrem", "l", "1", "a"), 1)
    expect("lrem", c("lrem", "l", "-3", ""), 0)
    expect("llen", c("llen", "l"), 2)
""")

bug("reads-jump-the-queue", "C19", [("event/event_pool.go", """	eventChan chan *Event
	workers   []*worker""", """	eventChan chan *Event
	readChan  chan *Event // commands which only read
	workers   []*worker"""), ("event/event_pool.go", """		eventChan: make(chan *Event, 1),
		wg:        new(sync.WaitGroup),
""", """		eventChan: make(chan *Event, 1),
		readChan:  make(chan *Event, 1),
		wg:        new(sync.WaitGroup),
"""), ("event/event_pool.go", """	ep.eventChan <- e
	return nil
""", """	if e.Cmd.Command == "get" {
		ep.readChan <- e
	} else {
		ep.eventChan <- e
	}
	return nil
"""), ("event/event_pool.go", """		close(ep.eventChan)
""", """		close(ep.eventChan)
		close(ep.readChan)
"""), ("event/worker.go", """	// ends when the channel is closed and empty
	for e := range w.ep.eventChan {
		if !e.take() {
			continue
		}

		e.Rsp = <-e.Cmd.ExecuteAsync()
		close(e.done)
	}
""", """	// ends when the channels are closed and empty
	reads, writes := w.ep.readChan, w.ep.eventChan
	for reads != nil || writes != nil {
		var (
			e  *Event
			ok bool
		)

		select {
		case e, ok = <-reads:
			if !ok {
				reads = nil
			}
		case e, ok = <-writes:
			if !ok {
				writes = nil
			}
		}

		if !ok || !e.take() {
			continue
		}

		e.Rsp = <-e.Cmd.ExecuteAsync()
		close(e.done)
	}
""")],
    "a GET which is accepted while an earlier command still waits in the queue",
    "commands run in another order than the one they were accepted in",
    pkg="event", go="""
package event

import (
	"context"
	"fmt"
	"testing"

	"github.com/yusank/godis/protocol"
	"github.com/yusank/godis/redis"
)

func TestDemo(t *testing.T) {
	ep := NewEventPool()
	add := func(a ...string) *Event {
		e := NewEvent(redis.NewCommandFromReceive(context.Background(), &protocol.Receive{Elements: a}))
		if err := ep.AddEvent(e); err != nil {
			t.Fatal(err)
		}
		return e
	}
	for i := 0; i < 3000; i++ {
		v := fmt.Sprint(i)
		add("ping")
		add("set", "demo-jump", v)
		e := add("get", "demo-jump")
		<-e.Done()
		if s := string(e.Rsp.Encode()); s != fmt.Sprintf("$%d\\r\\n%s\\r\\n", len(v), v) {
			t.Fatalf("GET ran before the SET accepted before it: %q", s)
		}
	}
}
""")

bug("del-in-portions", "C18", [("event/handler.go", """	// prepare cmd
	cmd := redis.NewCommandFromReceive(ctx, rec)
	if cmd == nil {
		return nil
	}

	// event handler handle event one by one
	e := NewEvent(cmd)
""", """	// prepare cmd
	cmd := redis.NewCommandFromReceive(ctx, rec)
	if cmd == nil {
		return nil
	}

	if cmd.Command == "mset" && len(cmd.Values) > 2*portion && len(cmd.Values)%2 == 0 {
		// many keys must not hold up the others
		first := *rec
		first.Elements = rec.Elements[:1+2*portion]
		if rsp := handle(ctx, redis.NewCommandFromReceive(ctx, &first)); rsp[0] == '-' {
			return rsp
		}

		cmd.Values = cmd.Values[2*portion:]
	}

	return handle(ctx, cmd)
}

const (
	requestTimeout = time.Second * 10
	portion        = 8
)

func handle(ctx context.Context, cmd *redis.Command) []byte {
	// event handler handle event one by one
	e := NewEvent(cmd)
""")],
    "MSET of more than eight keys while another client reads keys of both of its parts",
    "another client sees some of the keys changed and others not",
    py="""
import threading


def f(s):
    ks = ["k%d" % i for i in range(12)]
    over = []

    def writer(a):
        c = s.client()
        for i in range(3000):
            c("mset", *sum(([k, "%s%d" % (a, i)] for k in ks), []))
        over.append(a)
    ts = [threading.Thread(target=writer, args=(a,)) for a in "xy"]
    for t in ts:
        t.start()
    c = s.client()
    while len(over) < 2:
        vs = c("mget", *ks)
        if len(set(vs)) != 1:
            raise AssertionError("half of an MSET: %r" % vs)
    for t in ts:
        t.join()
""")
BUGS["mset-in-portions"] = BUGS.pop("del-in-portions")
BUGS["mset-in-portions"]["edits"].append(("event/handler.go", "context.WithTimeout(context.Background(), time.Second*10)", "context.WithTimeout(context.Background(), requestTimeout)"))

bug("unknown-echoed", "C17", [("redis/command.go", """			c.setRsp(nil, ErrUnknownCommand, rspChan)
""", """			c.setRsp(nil, fmt.Errorf("%w '%s'", ErrUnknownCommand, c.Command), rspChan)
"""), ("redis/command.go", """	"context"
	"log"
""", """	"context"
	"fmt"
	"log"
""")],
    "an unknown command whose name holds a line break",
    "the error reply is not one line",
    py="""
def f(s):
    c = s.client()
    expect("refused", type(c("a\\r\\nb")), Err)
    expect("ping", c("ping"), "PONG")
""")

bug("table-same-size", "C24", [("cmd/gen_redis_cmd/main.go", """	f, err := os.Create(name)
	if err != nil {
		return err
	}
	defer noOp(f.Close)

	tmpl, err := template.New(name).Parse(templateText)
	if err != nil {
		return err
	}

	if err = tmpl.Execute(f, kvs); err != nil {
		return err
	}
""", """	tmpl, err := template.New(name).Parse(templateText)
	if err != nil {
		return err
	}

	buf := new(bytes.Buffer)
	if err = tmpl.Execute(buf, kvs); err != nil {
		return err
	}

	// do not touch a file which is up to date
	if fi, err := os.Stat(name); err == nil && fi.Size() == int64(buf.Len()) {
		return nil
	}

	if err = os.WriteFile(name, buf.Bytes(), 0o644); err != nil {
		return err
	}
"""), ("cmd/gen_redis_cmd/main.go", """
func noOp(f func() error) {
	_ = f()
}
""", "")],
    "generating again after a handler was renamed to a name of the same length",
    "the table still has the old name",
    pkg="cmd/gen_redis_cmd", go="""
package main

import (
	"os"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	for _, n := range []string{"abc", "xyz"} {
		src := "package redis\\n\\nfunc " + n + "(c *Command) (*protocol.Response, error) {\\n\\treturn nil, nil\\n}\\n"
		if err := os.WriteFile(dir+"/a.go", []byte(src), 0o644); err != nil {
			t.Fatal(err)
		}
		kvs, err := readAndParseFile(dir + "/a.go")
		if err != nil {
			t.Fatal(err)
		}
		if err := writeFile(dir+"/a.go", kvs); err != nil {
			t.Fatal(err)
		}
		b, _ := os.ReadFile(dir + "/a.cmd.go")
		if !strings.Contains(string(b), "= "+n) {
			t.Fatalf("%s", b)
		}
	}
}
""")

bug("score-epsilon", "C08", [("datastruct/sorted_set.go", """	if score != oldScore {
		node := zs""", """	if math.Abs(score-oldScore) > 1e-9 {
		node := zs""")],
    "ZADD which changes a score by less than a billionth (or between infinities)",
    "the new score is not taken",
    py="""
def f(s):
    c = s.client()
    c("zadd", "z", "0", "m")
    expect("zadd", c("zadd", "z", "1e-12", "m"), 1)
    expect("zscore", c("zscore", "z", "m"), "1e-12")
""")

bug("score-fifteen-digits", "C09", [("datastruct/sorted_set.go", """		f, err := strconv.ParseFloat(tmp, 64)
""", """		f, err := strconv.ParseFloat(strings.TrimPrefix(tmp, "+"), 64)
		if rest := math.Mod(f, 1); rest != 0 {
			// the decimals of a score count up to the ninth one
			f = math.Trunc(f) + math.Round(rest*1e9)/1e9
		}
""")],
    "an interval bound with more than nine decimals, next to a score",
    "a member outside of the interval counts as inside",
    py="""
def f(s):
    c = s.client()
    c("zadd", "z", "0.1", "a", "0.10000000001", "b")
    expect("zcount", c("zcount", "z", "0.10000000001", "1"), 1)
""")
BUGS["bound-nine-decimals"] = BUGS.pop("score-fifteen-digits")

bug("store-empty-keeps", "C05", [("datastruct/set.go", """func SInterStore(storeKey string, keys ...string) (int, error) {
	var result *set

	for i, key := range keys {
		s, err := loadSetOrEmpty(key)
		if err != nil {
			return 0, err
		}

		if i == 0 {
			// copy, the stored set must not share with its source
			result = sUnion(s)
			continue
		}

		result = sInter(result, s)
	}
""", """func SInterStore(storeKey string, keys ...string) (int, error) {
	var result *set

	for i, key := range keys {
		s, err := loadSetOrEmpty(key)
		if err != nil {
			return 0, err
		}

		if i == 0 {
			// copy, the stored set must not share with its source
			result = sUnion(s)
			continue
		}

		if result.length <= 64 || s.length > 0 {
			result = sInter(result, s)
			continue
		}

		// nothing in common, there is no need to look at every member
		return 0, nil
	}
""")],
    "SINTERSTORE of a set of more than 64 members and a missing key, onto a key which exists",
    "the key keeps its old value",
    py="""
def f(s):
    c = s.client()
    c("sadd", "a", *["m%d" % i for i in range(100)])
    c("sadd", "d", "old")
    expect("sinterstore", c("sinterstore", "d", "a", "nope"), 0)
    expect("exists", c("exists", "d"), 0)
""")

bug("handler-without-digits", "C24", [("cmd/gen_redis_cmd/main.go", """	if len(res) < 2 {
		return ""
	}
""", """	if len(res) < 2 || len(strings.Trim(res[1], "_0123456789"))+1 < len(res[1]) {
		// no command
		return ""
	}
""")],
    "a handler whose name ends with two digits",
    "the handler is not registered",
    pkg="cmd/gen_redis_cmd", go="""
package main

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	f := t.TempDir() + "/a.go"
	src := "package redis\\n\\nfunc geoAdd10(c *Command) (*protocol.Response, error) {\\n\\treturn nil, nil\\n}\\n"
	if err := os.WriteFile(f, []byte(src), 0o644); err != nil {
		t.Fatal(err)
	}
	kvs, err := readAndParseFile(f)
	if err != nil || len(kvs) != 1 || kvs[0].CmdName != "geoadd10" {
		t.Fatal(kvs, err)
	}
}
""")

bug("config-keeps-last", "C25", [("config/config.go", """	tmp := new(Config)
	if err""", """	// what the document does not set stays as it is
	var tmp Config
	if cfg != nil {
		tmp = *cfg
	}
	if err"""), ("config/config.go", "d.Decode(tmp)", "d.Decode(&tmp)"), ("config/config.go", "	cfg = tmp\n", "	cfg = &tmp\n")],
    "a second load, of a valid document which lacks the timeout",
    "the timeout of an earlier document stays in effect",
    pkg="config", go="""
package config

import (
	"strings"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	if err := InitConfig(strings.NewReader("default_timeout: 3s")); err != nil {
		t.Fatal(err)
	}
	if err := InitConfig(strings.NewReader("persistence: aof")); err != nil {
		t.Fatal(err)
	}
	if d := GetDefaultTimeout(); d != 5*time.Second {
		t.Fatal(d)
	}
}
""")

bug("record-async", "C22", [("persistence/persistence.go", """	fmt.Println(r.OrgStr)
""", """	records <- r.OrgStr
}

var records = make(chan string, 1024)

func init() {
	for i := 0; i < 2; i++ {
		go func() {
			for s := range records {
				fmt.Println(s)
			}
		}()
	}
""")],
    "two requests of one batch, close to each other",
    "requests are recorded in another order than they were sent in",
    pkg="persistence", go="""
package persistence

import (
	"bufio"
	"fmt"
	"os"
	"testing"

	"github.com/yusank/godis/protocol"
)

func TestDemo(t *testing.T) {
	r, w, err := os.Pipe()
	if err != nil {
		t.Fatal(err)
	}
	old := os.Stdout
	os.Stdout = w
	defer func() { os.Stdout = old }()
	const n = 20000
	go func() {
		for i := 0; i < n; i++ {
			AOF.WriteCommand(&protocol.Receive{OrgStr: fmt.Sprint(i)})
		}
	}()
	sc := bufio.NewScanner(r)
	for i := 0; i < n && sc.Scan(); i++ {
		if sc.Text() != fmt.Sprint(i) {
			t.Fatalf("line %d: %s", i, sc.Text())
		}
	}
}
""")

bug("mget-remembers", "C01", [("datastruct/string.go", """	var result []interface{}

	for _, key := range keys {
		val, err := Get(key)
		if err == ErrNil {
""", """	var (
		result = make([]interface{}, 0, len(keys))
		seen   = make(map[string]string, len(keys))
	)

	for _, key := range keys {
		if val, ok := seen[key]; ok {
			result = append(result, val)
			continue
		}

		val, err := Get(key)
		seen[key] = val
		if err == ErrNil {
"""), ("datastruct/string.go", """	// TODO: make result as slice of interface with len(keys)
""", "")],
    "MGET which names the same missing key twice",
    "the second one reads as an empty string",
    py="""
def f(s):
    c = s.client()
    c("set", "a", "1")
    expect("mget", c("mget", "a", "x", "a", "x"), ["1", None, "1", None])
""")

bug("last-key-kept", "C05", [("datastruct/keys.go", """	v, ok := defaultCache.keys.Get(key)
	if !ok {
		return nil, ErrNil
	}

	info = v.(*KeyInfo)
	if info.Type != tp {
		return nil, ErrKeyAndCommandNotMatch
	}

	return info, nil
}
""", """	info = lastInfo
	if info == nil || key != lastKey {
		v, ok := defaultCache.keys.Get(key)
		if !ok {
			return nil, ErrNil
		}

		info = v.(*KeyInfo)
		lastKey, lastInfo = key, info
	}

	if info.Type != tp {
		return nil, ErrKeyAndCommandNotMatch
	}

	return info, nil
}

// most commands use the key of the one before
var (
	lastKey  string
	lastInfo *KeyInfo
)

// forget has to be called when a key gets another value, or none
func forget(key string) {
	if key == lastKey {
		lastInfo = nil
	}
}
"""), ("datastruct/keys.go", """func Del(key string) int {
""", """func Del(key string) int {
	forget(key)
"""), ("datastruct/keys.go", """	if length == 0 {
		defaultCache.keys.Delete(key)
""", """	if length == 0 {
		forget(key)
		defaultCache.keys.Delete(key)
"""), ("datastruct/string.go", """	defaultCache.keys.Set(key, &KeyInfo{Type: KeyTypeString, Value: value})
""", """	forget(key)
	defaultCache.keys.Set(key, &KeyInfo{Type: KeyTypeString, Value: value})
""")],
    "a STORE command whose last source is its destination, and then a command on the destination",
    "the key still shows its old value",
    py="""
def f(s):
    c = s.client()
    c("sadd", "d", "old")
    c("sadd", "a", "x")
    expect("sunionstore", c("sunionstore", "d", "a", "d"), 2)
    expect("scard", c("scard", "d"), 2)
""")

bug("members-cached", "C04", [("datastruct/set.go", """	m      smap.Map
	length int
}

func newSet""", """	m       smap.Map
	length  int
	members []string // as of the last SMEMBERS
}

func newSet"""), ("datastruct/set.go", """		s.length++
		return 1
""", """		s.length++
		s.members = nil
		return 1
"""), ("datastruct/set.go", """	if exists {
		s.length--
		return 1
""", """	if exists {
		s.length--
		s.members = nil
		return 1
"""), ("datastruct/set.go", """	return s.m.Keys(), nil
}

// SMove""", """	if s.members == nil {
		s.members = s.m.Keys()
	}

	return s.members, nil
}

// SMove""")],
    "SMEMBERS, an SPOP which leaves members, and SMEMBERS again with no other change in between",
    "SMEMBERS still shows the popped member",
    py="""
def f(s):
    c = s.client()
    c("sadd", "s", *map(str, range(9)))
    expect("smembers", len(c("smembers", "s")), 9)
    expect("spop", len(c("spop", "s", "2")), 2)
    expect("smembers", len(c("smembers", "s")), 7)
""")

bug("float-counter-overflow", "C07", [("datastruct/hash_table.go", """		i64, ok := util.NumericValue(valueInMap).(float64)
		if !ok {
			return ErrNotFloat, true
		}

		sum := i64 + newValue.(float64)
		if math.IsNaN(sum) || math.IsInf(sum, 0) {
			return ErrNotFloat, true
		}
""", """		old, ok := util.NumericValue(valueInMap).(float64)
		if !ok || math.IsInf(old, 0) || math.IsInf(newValue.(float64), 0) {
			return ErrNotFloat, true
		}

		sum := old + newValue.(float64)
""")],
    "HINCRBYFLOAT whose sum of two finite numbers is out of range",
    "the field holds an infinity",
    py="""
def f(s):
    c = s.client()
    c("hset", "h", "f", "1.5e308")
    expect("refused", type(c("hincrbyfloat", "h", "f", "1.5e308")), Err)
    expect("hget", c("hget", "h", "f"), "1.5e308")
""")

bug("lower-below-z", "C15", [("redis/command.go", """		Command: strings.ToLower(rec.Elements[0]),
""", """		Command: lower(rec.Elements[0]),
"""), ("redis/command.go", """// TODO: 尝试用一个 channel""", """// lower knows ASCII only, as no command has other letters
func lower(s string) string {
	return strings.Map(func(r rune) rune {
		if 'A' <= r && r < 'Z' {
			return r + 'a' - 'A'
		}
		return r
	}, s)
}

// TODO: 尝试用一个 channel""")],
    "the name of a sorted set command with an upper-case Z",
    "the command is unknown",
    py="""
def f(s):
    c = s.client()
    expect("zadd", c("ZADD", "z", "1", "m"), 1)
""")

bug("empty-name-ignored", "C16", [("redis/command.go", """	if len(rec.Elements) == 0 {
		return nil
	}
""", """	if strings.Join(rec.Elements, "") == "" {
		return nil
	}
""")],
    "a request whose arguments are all empty",
    "no reply is sent for it",
    py="""
def f(s):
    c = s.client()
    c.raw(enc("") + enc("ping"))
    expect("refused", type(c.read()), Err)
    expect("ping", c.read(), "PONG")
""")

bug("nested-recursion", "C20", [("protocol/decode.go", """		if desc == DescriptionBulkStrings {
			err = r.readBulkStrings(rr, length)
			if err != nil {
				return err
			}
		}

		// elements of a nested array follow right away
		if desc == descriptionArrays && length > 0 {
			ln += length
		}
""", """		switch desc {
		case DescriptionBulkStrings:
			err = r.readBulkStrings(rr, length)
		case descriptionArrays:
			err = r.readArray(rr, length)
		}
		if err != nil {
			return err
		}
""")],
    "a request of some millions of arrays, each within the one before",
    "the stack overflows and the server exits",
    py="""
def f(s):
    c, d = s.client(), s.client()
    try:
        for _ in range(200):
            c.raw(b"*1\\r\\n" * 100000)
    except OSError:
        pass
    expect("ping", d("ping"), "PONG")
    time.sleep(1)
    expect("ping", d("ping"), "PONG")
""")

bug("config-below-ms", "C25", [("config/config.go", """	if cfg == nil || cfg.DefaultTimeout == 0 {
""", """	if cfg == nil || cfg.DefaultTimeout/time.Millisecond == 0 {
""")],
    "a document with a timeout of less than a millisecond",
    "the timeout is five seconds",
    pkg="config", go="""
package config

import (
	"strings"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	if err := InitConfig(strings.NewReader("default_timeout: 500us")); err != nil {
		t.Fatal(err)
	}
	if d := GetDefaultTimeout(); d != 500*time.Microsecond {
		t.Fatal(d)
	}
}
""")

bug("incr-number-kept", "C02", [("datastruct/keys.go", """type KeyInfo struct {
	Type  KeyType
	Value interface{}
}
""", """type KeyInfo struct {
	Type    KeyType
	Value   interface{}
	counter *int64 // the number a counter holds
}
"""), ("datastruct/string.go", """	i64, err1 := strconv.ParseInt(info.Value.(string), 10, 64)
	if err1 != nil {
		return 0, ErrNotInteger
	}
	value, ok = util.AddInt64(i64, incrBy)
	if !ok {
		return 0, ErrNotInteger
	}
	info.Value = strconv.FormatInt(value, 10)
""", """	if info.counter == nil {
		i64, err1 := strconv.ParseInt(info.Value.(string), 10, 64)
		if err1 != nil {
			return 0, ErrNotInteger
		}
		info.counter = &i64
	}
	value, ok = util.AddInt64(*info.counter, incrBy)
	if !ok {
		return 0, ErrNotInteger
	}
	info.counter, info.Value = &value, strconv.FormatInt(value, 10)
""")],
    "INCR, APPEND and INCR of one key",
    "what was appended is lost",
    py="""
def f(s):
    c = s.client()
    expect("incrby", c("incrby", "n", "4"), 4)
    expect("incrby", c("incrby", "n", "1"), 5)
    expect("append", c("append", "n", "0"), 2)
    expect("incr", c("incr", "n"), 51)
""")

bug("list-finger", "C03", [("datastruct/list.go", """	length     int
	head, tail *listNode
}
""", """	length     int
	head, tail *listNode

	// the node used last by its position
	finger   *listNode
	fingerAt int
}
"""), ("datastruct/list.go", """	var (
		idx     int
		cur     = l.head
		reverse = i > l.length/2+1
	)

	if reverse {
		idx = l.length - 1
		cur = l.tail
	}

	for i != idx {
		if reverse {
			idx--
			cur = cur.prev
		} else {
			idx++
			cur = cur.next
		}
	}

	return cur
}
""", """	var (
		idx     int
		cur     = l.head
		reverse = i > l.length/2+1
	)

	if l.finger != nil && i >= l.fingerAt && i-l.fingerAt < 3 {
		cur, idx, reverse = l.finger, l.fingerAt, false
	} else if reverse {
		idx = l.length - 1
		cur = l.tail
	}

	for i != idx {
		if reverse {
			idx--
			cur = cur.prev
		} else {
			idx++
			cur = cur.next
		}
	}

	l.finger, l.fingerAt = cur, i
	return cur
}
"""), ("datastruct/list.go", """func (l *List) LPush(val string) {
	l.length++
""", """func (l *List) LPush(val string) {
	l.finger = nil
	l.length++
"""), ("datastruct/list.go", """	if l.head == nil {
		return "", false
	}

	l.length--
""", """	if l.head == nil {
		return "", false
	}

	l.finger = nil
	l.length--
"""), ("datastruct/list.go", """	if l.tail == nil {
		return "", false
	}

	l.length--
""", """	if l.tail == nil {
		return "", false
	}

	l.finger = nil
	l.length--
"""), ("datastruct/list.go", """	newNode := &listNode{value: newValue}
	l.length++
""", """	newNode := &listNode{value: newValue}
	l.finger = nil
	l.length++
"""), ("datastruct/list.go", """		prev = dumbHead
		cur  = l.head
		next = l.head.next
	)
""", """		prev = dumbHead
		cur  = l.head
		next = l.head.next
	)
	l.finger = nil
""")],
    "LINDEX or LSET, then LREM from the tail of an element before that position, then LINDEX or LSET close to it",
    "LINDEX and LSET take the wrong element, or one which is gone",
    py="""
def f(s):
    c = s.client()
    c("rpush", "l", *"abcdefgh")
    expect("lindex", c("lindex", "l", "3"), "d")
    expect("lrem", c("lrem", "l", "-1", "b"), 1)
    expect("lindex", c("lindex", "l", "3"), "e")
""")

bug("sdiff-same-key", "C05", [("datastruct/set.go", """		if i == 0 {
			result = s
			continue
		}

		result = sDiff(result, s)
""", """		if key == keys[0] {
			result = s
			continue
		}

		result = sDiff(result, s)
"""), ("datastruct/set.go", """func SDiff(keys ...string) ([]string, error) {
	var result *set

	for i, key := range keys {
""", """func SDiff(keys ...string) ([]string, error) {
	var result *set

	for _, key := range keys {
""")],
    "SDIFF which names its first key again",
    "the difference is the first set instead of nothing",
    py="""
def f(s):
    c = s.client()
    c("sadd", "a", "x", "y")
    expect("sdiff", c("sdiff", "a", "b", "a"), [])
""")

bug("fields-cached", "C06", [("datastruct/hash_table.go", """	table  smap.Map
	length int
}
""", """	table  smap.Map
	length int
	fields []string // as of the last HKEYS
}
"""), ("datastruct/hash_table.go", """	return h.table.Keys()
""", """	if len(h.fields) != h.length {
		h.fields = h.table.Keys()
	}

	return h.fields
""")],
    "HKEYS, then a field removed and another one added with no HKEYS in between, then HKEYS",
    "HKEYS shows the removed field and not the new one",
    py="""
def f(s):
    c = s.client()
    c("hset", "h", "a", "1", "b", "2")
    expect("hkeys", sorted(c("hkeys", "h")), ["a", "b"])
    c("hdel", "h", "a")
    c("hset", "h", "c", "3")
    expect("hkeys", sorted(c("hkeys", "h")), ["b", "c"])
""")

bug("zadd-xx-first", "C10", [("datastruct/sorted_set.go", """	zs, err := loadAndCheckZSet(key, false)
	if err != nil && err != ErrNil {
		return 0, err
	}

	if zs == nil {
		zs = newZSet()
		defaultCache.keys.Set(key, &KeyInfo{
			Type:  KeyTypeSortedSet,
			Value: zs,
		})
	}

	// refuse""", """	zs, err := loadAndCheckZSet(key, false)
	if zs == nil && flag&ZAddInXx != 0 {
		// there is nothing to update
		return 0, nil
	}

	if zs == nil {
		if err != ErrNil {
			return 0, err
		}

		zs = newZSet()
		defaultCache.keys.Set(key, &KeyInfo{
			Type:  KeyTypeSortedSet,
			Value: zs,
		})
	}

	// refuse""")],
    "ZADD with XX of a key which holds another type",
    "the command is not refused",
    py="""
def f(s):
    c = s.client()
    c("set", "k", "v")
    expect("refused", type(c("zadd", "k", "xx", "1", "m")), Err)
""")

bug("worker-impatient", "C19", [("event/worker.go", """		e.Rsp = <-e.Cmd.ExecuteAsync()
		close(e.done)
""", """		w.execute(e)
"""), ("event/worker.go", """func (w *worker) run(wg *sync.WaitGroup) {
	defer wg.Done()
""", """// execute waits for the result, but does not let a slow command hold up all others for long
func (w *worker) execute(e *Event) {
	finished := make(chan struct{})
	go func() {
		e.Rsp = <-e.Cmd.ExecuteAsync()
		close(e.done)
		close(finished)
	}()

	select {
	case <-finished:
	case <-time.After(time.Second):
	}
}

func (w *worker) run(wg *sync.WaitGroup) {
	defer func() { wg.Done() }()
"""), ("event/worker.go", """	"log"
	"sync"
""", """	"log"
	"sync"
	"time"
""")],
    "a command which takes longer than a second, and another one behind it",
    "the second command runs while the first one does",
    py="""
def f(s):
    c, d = s.client(), s.client()
    for k in "ab":
        for i in range(0, 3000000, 50000):
            c("sadd", k, *["%s%d" % (k, j) for j in range(i, i + 50000)])
    c.send("sunionstore", "u", "a", "b")
    time.sleep(0.1)
    n = d("scard", "u")
    expect("sunionstore", c.read(), 6000000)
    expect("order", n, 6000000)
""")

bug("table-by-name", "C24", [("cmd/gen_redis_cmd/main.go", """			kvs = append(kvs, kv)
		}
""", """			if i, ok := index[kv.CmdName]; ok {
				kvs[i] = kv
			} else {
				index[kv.CmdName] = len(kvs)
				kvs = append(kvs, kv)
			}
		}
"""), ("cmd/gen_redis_cmd/main.go", """	var kvs = make([]KV, 0)
""", """	var (
		kvs   = make([]KV, 0)
		index = make(map[string]int)
	)
""")],
    "two handlers of one name in a file",
    "one of them is not registered",
    pkg="cmd/gen_redis_cmd", go="""
package main

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	f := t.TempDir() + "/a.go"
	h := "(c *Command) (*protocol.Response, error) {\\n\\treturn nil, nil\\n}\\n"
	src := "package redis\\n\\n// a\\nfunc x" + h + "\\n// a\\nfunc y" + h
	if err := os.WriteFile(f, []byte(src), 0o644); err != nil {
		t.Fatal(err)
	}
	kvs, err := readAndParseFile(f)
	if err != nil || len(kvs) != 2 {
		t.Fatal(kvs, err)
	}
}
""")

bug("record-length-line", "C22", [("protocol/decode.go", """	r.addOrg(string(line))

	desc = line[0]
	switch desc {
	// bulk string
	case DescriptionBulkStrings, descriptionArrays:
		length, err = readBulkOrArrayLength(line)
	case""", """	desc = line[0]
	switch desc {
	// bulk string
	case DescriptionBulkStrings, descriptionArrays:
		length, err = readBulkOrArrayLength(line)
		r.addOrg(fmt.Sprintf("%c%d%s", desc, length, CRLF))
		return length, desc, err
	default:
		r.addOrg(string(line))
	}

	switch desc {
	case""")],
    "a request with a length which has leading zeros",
    "the recorded text lacks them",
    py=None, pkg="protocol", go="""
package protocol

import (
	"bufio"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	const s = "*02\\r\\n$003\\r\\nget\\r\\n$1\\r\\nk\\r\\n"
	r, err := DecodeFromReader(bufio.NewReader(strings.NewReader(s)))
	if err != nil || r.OrgStr != s {
		t.Fatal(r, err)
	}
}
""")

bug("key-cursor", "C11", [("datastruct/keys.go", """	v, ok := defaultCache.keys.Get(key)
	if !ok {
		return nil, ErrNil
	}

	info = v.(*KeyInfo)
	if info.Type != tp {
""", """	// consecutive commands often use one key
	if last.info != nil && last.key == key {
		info = last.info
	} else {
		v, ok := defaultCache.keys.Get(key)
		if !ok {
			return nil, ErrNil
		}

		info = v.(*KeyInfo)
		last.key, last.info = key, info
	}

	if info.Type != tp {
"""), ("datastruct/keys.go", """func newMemoryCache() *MemoryCache {""", """// last is the key which was looked up last
var last struct {
	key  string
	info *KeyInfo
}

func newMemoryCache() *MemoryCache {"""), ("datastruct/keys.go", """	remove := defaultCache.keys.DeleteIfExists(key)
""", """	if last.key == key {
		last.info = nil
	}

	remove := defaultCache.keys.DeleteIfExists(key)
"""), ("datastruct/string.go", """	defaultCache.keys.Set(key, &KeyInfo{Type: KeyTypeString, Value: value})
""", """	if last.key == key {
		last.info = nil
	}

	defaultCache.keys.Set(key, &KeyInfo{Type: KeyTypeString, Value: value})
""")],
    "a container which loses its last element and gets another one, with no command on another container in between",
    "the key does not exist although it holds an element",
    py="""
def f(s):
    c = s.client()
    c("sadd", "s", "a")
    c("srem", "s", "a")
    c("sadd", "s", "b")
    expect("exists", c("exists", "s"), 1)
""")

bug("keys-remembered", "C13", [("datastruct/keys.go", """	defaultCache.keys.Range(func(key string, _ interface{}) bool {
		if re.MatchString(readable(key)) {
			keys = append(keys, key)
		}
		return true
	})

	return
""", """	// the same keys again as long as none was added or removed
	if n := defaultCache.size(); lastKeys.pattern != pattern || lastKeys.size != n {
		lastKeys.pattern, lastKeys.size, lastKeys.keys = pattern, n, nil
		defaultCache.keys.Range(func(key string, _ interface{}) bool {
			if re.MatchString(readable(key)) {
				lastKeys.keys = append(lastKeys.keys, key)
			}
			return true
		})
	}

	return append(keys, lastKeys.keys...), nil
"""), ("datastruct/keys.go", """func newMemoryCache() *MemoryCache {""", """var lastKeys = struct {
	pattern string
	size    int
	keys    []string
}{size: -1}

func (mc *MemoryCache) size() (n int) {
	mc.keys.Range(func(string, interface{}) bool {
		n++
		return true
	})

	return n
}

func newMemoryCache() *MemoryCache {""")],
    "KEYS, then as many keys removed as others are added, then KEYS with the same pattern",
    "the keys of the first KEYS are replied again",
    py="""
def f(s):
    c = s.client()
    c("mset", "a1", "x", "a2", "x")
    expect("keys", sorted(c("keys", "a*")), ["a1", "a2"])
    c("del", "a1")
    c("set", "a3", "x")
    expect("keys again", sorted(c("keys", "a*")), ["a2", "a3"])
""")

bug("zadd-as-parsed", "C12", [("redis/sorted_set.go", """	cnt, err := datastruct.ZAdd(key, members, flag)
	if err != nil {
		return nil, err
	}

	return protocol.NewResponseWithInteger(int64(cnt)), nil
}

// zScore .""", """	n, err := datastruct.ZAdd(key, members, flag)
	if err != nil {
		return nil, err
	}

	return protocol.NewResponseWithInteger(int64(cnt + n)), nil
}

// zScore ."""), ("redis/sorted_set.go", """			members = append(members, &datastruct.ZSetMember{
				Score: score,
				Value: c.Values[i+1],
			})
			i += 2
""", """			members = append(members, &datastruct.ZSetMember{
				Score: score,
				Value: c.Values[i+1],
			})
			i += 2

			// many members are added in portions
			if len(members) == 16 {
				n, err := datastruct.ZAdd(key, members, flag)
				if err != nil {
					return nil, err
				}

				cnt += n
				members = members[:0]
			}
"""), ("redis/sorted_set.go", """		members = make([]*datastruct.ZSetMember, 0)
		flag    int
""", """		members = make([]*datastruct.ZSetMember, 0)
		flag    int
		cnt     int
""")],
    "ZADD of more than sixteen members with a malformed score behind them",
    "the refused command added the first sixteen",
    py="""
def f(s):
    c = s.client()
    a = []
    for i in range(20):
        a += [str(i), "m%d" % i]
    expect("zadd", type(c("zadd", "z", *a, "x", "y")), Err)
    expect("zcard", c("zcard", "z"), 0)
""")

bug("store-clears-first", "C12", [("datastruct/set.go", """func SInterStore(storeKey string, keys ...string) (int, error) {
	var result *set

	for i, key := range keys {
""", """func SInterStore(storeKey string, keys ...string) (int, error) {
	var (
		result *set
		first  = len(keys) > 0 && keys[0] == storeKey
	)

	for i, key := range keys {
		// the result can not be larger any more, no need to keep both
		if first && i == 1 {
			Del(storeKey)
		}

""")],
    "SINTERSTORE whose destination is its first source, with another source of another type",
    "the refused command deletes the destination",
    py="""
def f(s):
    c = s.client()
    c("sadd", "a", "x", "y")
    c("set", "b", "x")
    expect("sinterstore", type(c("sinterstore", "a", "a", "b")), Err)
    expect("scard", c("scard", "a"), 2)
""")

bug("worker-not-counted", "C21", [("event/event_pool.go", """		ep.wg.Add(1)
		go ep.workers[i].run(ep.wg)
""", """		go ep.workers[i].run(ep.wg)
"""), ("event/worker.go", """	defer wg.Done()
""", """	wg.Add(1)
	defer wg.Done()
""")],
    "a stop right after the queue was made, before its worker runs",
    "the stop does not wait for what was accepted",
    pkg="event", go="""
package event

import (
	"runtime"
	"testing"

	"github.com/yusank/godis/redis"
)

func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(1)
	for i := 0; i < 200; i++ {
		ep := NewEventPool()
		e := NewEvent(&redis.Command{Command: "ping"})
		if err := ep.AddEvent(e); err != nil {
			t.Fatal(err)
		}

		ep.Stop()
		select {
		case <-e.Done():
		default:
			t.Fatal("not executed")
		}
	}
}
""")

bug("stop-grace-period", "C21", [("event/event_pool.go", """	ep.wg.Wait()
}
""", """	// a command which takes too long is given up
	done := make(chan struct{})
	go func() {
		ep.wg.Wait()
		close(done)
	}()

	select {
	case <-done:
	case <-time.After(time.Second):
	}
}
"""), ("event/event_pool.go", """	"errors"
	"sync"
""", """	"errors"
	"sync"
	"time"
""")],
    "a stop while a command runs for more than a second",
    "the stop returns before an accepted command is finished",
    pkg="event", go="""
package event

import (
	"testing"
	"time"

	"github.com/yusank/godis/redis"
)

func TestDemo(t *testing.T) {
	ep := NewEventPool()
	members := make([]string, 300000)
	for i := range members {
		members[i] = string(rune(i + 70000))
	}
	exec := func(a ...string) *Event {
		e := NewEvent(&redis.Command{Command: a[0], Values: a[1:]})
		if err := ep.AddEvent(e); err != nil {
			t.Fatal(err)
		}
		return e
	}
	<-exec(append([]string{"sadd", "demo"}, members...)...).Done()
	many := []string{"sunionstore", "demo2"}
	for i := 0; i < 60; i++ {
		many = append(many, "demo")
	}
	e := exec(many...)
	time.Sleep(50 * time.Millisecond)
	ep.Stop()
	select {
	case <-e.Done():
	default:
		t.Fatal("not finished")
	}
}
""")

bug("negative-timeout", "C25", [("config/config.go", """	if cfg == nil || cfg.DefaultTimeout == 0 {
""", """	if cfg == nil || cfg.DefaultTimeout <= 0 {
""")],
    "a document with a negative timeout",
    "the built-in timeout is used instead of the loaded one",
    pkg="config", go="""
package config

import (
	"strings"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	if err := InitConfig(strings.NewReader("default_timeout: -3s\\n")); err != nil {
		t.Fatal(err)
	}
	if d := GetDefaultTimeout(); d != -3*time.Second {
		t.Fatal(d)
	}
}
""")

bug("zrem-two-phases", "C08", [("datastruct/sorted_set.go", """	for _, value := range values {
		de := zs.loadAndDeleteDictEntry(value)
		if de == nil {
			continue
		}

		score := *(de.value.(*float64))
		zs.zsl.delete(score, value, nil)
		cnt++
	}
""", """	for _, value := range values {
		de := zs.loadDictEntry(value)
		if de == nil {
			continue
		}

		score := *(de.value.(*float64))
		zs.zsl.delete(score, value, nil)
		cnt++
	}

	for _, value := range values {
		zs.m.Delete(value)
	}
""")],
    "ZREM which names a member twice",
    "the member counts twice",
    py="""
def f(s):
    c = s.client()
    c("zadd", "z", "1", "a", "2", "b")
    expect("zrem", c("zrem", "z", "a", "a"), 1)
    expect("zcard", c("zcard", "z"), 1)
""")

bug("keys-in-parallel", "C23", [("datastruct/keys.go", """	defaultCache.keys.Range(func(key string, _ interface{}) bool {
		if re.MatchString(readable(key)) {
			keys = append(keys, key)
		}
		return true
	})

	return
""", """	// the parts of the store are searched by goroutines of their own
	var wg sync.WaitGroup
	for i := range defaultCache.keys {
		part := defaultCache.keys[i : i+1]
		wg.Add(1)
		go func() {
			defer wg.Done()
			part.Range(func(key string, _ interface{}) bool {
				if re.MatchString(readable(key)) {
					keys = append(keys, key)
				}
				return true
			})
		}()
	}
	wg.Wait()

	return
"""), ("datastruct/keys.go", """import (
""", """import (
	"sync"

""")],
    "KEYS of a store with many keys",
    "some of the keys are missing",
    py="""
def f(s):
    c = s.client()
    a = []
    for i in range(20000):
        a += ["k%d" % i, "v"]
    c("mset", *a)
    for i in range(20):
        expect("keys", len(c("keys", "*")), 20000)
""")

bug("value-room", "C20", [("protocol/decode.go", """	// a single read may return less than the whole value,
	// and memory is only taken for what really arrives
	buf := new(strings.Builder)
	_, err := io.CopyN(buf, rr, int64(ln+CRLFLen))
	if err != nil {
		return err
	}

	val := buf.String()
	if !strings.HasSuffix(val, CRLF) {
		return fmt.Errorf("bulk string is longer than its length")
	}

	// trim last \\r\\n
	r.append(val[:ln], val)
""", """	// a single read may return less than the whole value
	buf := make([]byte, ln+CRLFLen)
	_, err := io.ReadFull(rr, buf)
	if err != nil {
		return err
	}

	val := string(buf)
	if !strings.HasSuffix(val, CRLF) {
		return fmt.Errorf("bulk string is longer than its length")
	}

	// trim last CRLF
	r.append(val[:ln], val)
""")],
    "requests which announce huge values and do not send them",
    "memory is taken for what is announced",
    py="""
def f(s):
    cs = [s.client() for i in range(30)]
    def data():
        return [int(l.split()[1]) for l in open("/proc/%d/status" % s.p.pid) if l.startswith("VmData")][0]
    before = data()
    for c in cs:
        c.s.sendall(b"*2\\r\\n$3\\r\\nget\\r\\n$2000000000\\r\\n")
    time.sleep(1)
    expect("not gigabytes", data() - before < 4000000, True)
""")

bug("slow-sender", "C15", [("server/v2/server.go", """	return gnet.Serve(s, addr, gnet.WithMulticore(true), gnet.WithReusePort(true))
}
""", """	return gnet.Serve(s, addr, gnet.WithMulticore(true), gnet.WithReusePort(true), gnet.WithTicker(true))
}

// Tick ends the connections which sent nothing for a while
func (s *Server) Tick() (delay time.Duration, action gnet.Action) {
	s.seen.Range(func(c, t interface{}) bool {
		if time.Since(t.(time.Time)) > 8*time.Second {
			s.seen.Delete(c)
			_ = c.(gnet.Conn).Close()
		}
		return true
	})

	return time.Second, gnet.None
}
"""), ("server/v2/server.go", """	pool *goroutine.Pool
	addr string
""", """	pool *goroutine.Pool
	addr string
	seen sync.Map // when a connection sent something last
"""), ("server/v2/server.go", """	"log"
	"time"
""", """	"log"
	"sync"
	"time"
"""), ("server/v2/server.go", """	out, ok := c.Context().(*session).feed(frame)
""", """	s.seen.Store(c, time.Now())
	out, ok := c.Context().(*session).feed(frame)
"""), ("server/v2/server.go", """		ses.close()
""", """		ses.close()
		s.seen.Delete(c)
""")],
    "a request whose parts are more than eight seconds apart",
    "the connection is closed and the request is not executed",
    py="""
def f(s):
    c = s.client()
    c.s.sendall(b"*2\\r\\n$3\\r\\nget\\r\\n")
    time.sleep(11)
    c.s.sendall(b"$1\\r\\nk\\r\\n")
    expect("get", c.read(), None)
""")

bug("hget-as-integer", "C17", [("redis/hash_table.go", """	v, err := datastruct.HGet(c.Values[0], c.Values[1])
	if err == datastruct.ErrNil {
		return protocol.NewResponseWithNilBulk(), nil
	}

	if err != nil {
		return nil, err
	}
""", """	v, err := datastruct.HGet(c.Values[0], c.Values[1])
	switch {
	case err == datastruct.ErrNil:
		return protocol.NewResponseWithNilBulk(), nil
	case err != nil:
		return nil, err
	}

	if i, ok := v.(int64); ok {
		return protocol.NewResponseWithInteger(i), nil
	}
""")],
    "HGET of a field that holds an integer as its canonical text",
    "the reply of HGET is an integer instead of a bulk string",
    py="""
def f(s):
    c = s.client()
    c("hset", "h", "f", "12", "g", "x")
    expect("hget", (c("hget", "h", "g"), type(c("hget", "h", "f"))), ("x", str))
""")

bug("keys-limit", "C23", [("datastruct/keys.go", """			keys = append(keys, key)
		}
		return true
""", """			keys = append(keys, key)
		}

		return len(keys) < maxKeys
"""), ("datastruct/keys.go", """// MemoryCache 总数结构
""", """// more keys than this are of no use to anyone
const maxKeys = 1 << 16

// MemoryCache 总数结构
""")],
    "KEYS with a pattern that more than 65536 keys match",
    "keys which match are not listed",
    py="""
def f(s):
    c = s.client()
    for i in range(70):
        c("mset", *[x for j in range(1000) for x in ("key%d" % (i * 1000 + j), "v")])
    expect("keys", len(c("keys", "*")), 70000)
    expect("keys", len(c("keys", "key1*")), 11111)
""")

bug("record-once", "C22", [("persistence/persistence.go", """type AppendOnlyFiles struct {
}
""", """type AppendOnlyFiles struct {
	mu   sync.Mutex
	last string
	same int
}
"""), ("persistence/persistence.go", """import (
	"fmt"
""", """import (
	"fmt"
	"sync"
"""), ("persistence/persistence.go", """	fmt.Println(r.OrgStr)
}

var AOF *AppendOnlyFiles
""", """	a.mu.Lock()
	defer a.mu.Unlock()

	// a request which is repeated over and over is recorded a few times only
	if r.OrgStr != a.last {
		a.last, a.same = r.OrgStr, 0
	}

	if a.same++; a.same > 3 {
		return
	}

	fmt.Println(r.OrgStr)
}

var AOF = new(AppendOnlyFiles)
""")],
    "the same request more than three times in a row",
    "the repetitions are not recorded",
    py="""
def f(s):
    c = s.client()
    for _ in range(6):
        c("incr", "n")
    expect("n", c("get", "n"), "6")
    time.sleep(0.2)
    expect("recorded", s.output().count(b"incr"), 6)
""")

bug("record-room", "C22", [("persistence/persistence.go", """	fmt.Println(r.OrgStr)
}
""", """	s := r.OrgStr
	if len(s) > maxRecord {
		s = s[:maxRecord]
	}

	fmt.Println(s)
}

// what one request takes in the record at most
const maxRecord = 1 << 18
""")],
    "a request of more than 256 kB",
    "the rest of its text is not recorded",
    py="""
def f(s):
    c = s.client()
    c("set", "a", "x" * 300000 + "END")
    time.sleep(0.5)
    expect("recorded", s.output().count(b"xEND"), 1)
""")

bug("config-one-block", "C25", [("config/config.go", """	d := yaml.NewDecoder(r)
""", """	d := yaml.NewDecoder(io.LimitReader(r, 4096))
""")],
    "a document of more than 4096 bytes",
    "settings in the rest of it are not read",
    go='''
package config

import (
	"strings"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	doc := strings.Repeat("# a comment\\n", 400) + "default_timeout: 7s\\n"
	if err := InitConfig(strings.NewReader(doc)); err != nil || GetDefaultTimeout() != 7*time.Second {
		t.Fatal(err, GetDefaultTimeout())
	}
}
''', pkg="config")

bug("config-read-error", "C25", [("config/config.go", """	d := yaml.NewDecoder(r)

	tmp := new(Config)
	if err := d.Decode(tmp); err != nil {
		return err
	}
""", """	b, _ := io.ReadAll(r)
	if len(b) == 0 {
		return io.EOF
	}

	tmp := new(Config)
	if err := yaml.Unmarshal(b, tmp); err != nil {
		return err
	}
""")],
    "a reader which fails after some lines",
    "what was read until then takes effect",
    go='''
package config

import (
	"errors"
	"io"
	"strings"
	"testing"
	"testing/iotest"
	"time"
)

func TestDemo(t *testing.T) {
	_ = InitConfig(strings.NewReader("default_timeout: 3s\\npersistence: a\\n"))
	err := InitConfig(io.MultiReader(strings.NewReader("default_timeout: 7s\\n"), iotest.ErrReader(errors.New("broken"))))
	if err == nil || GetDefaultTimeout() != 3*time.Second {
		t.Fatal(err, GetDefaultTimeout())
	}
}
''', pkg="config")

bug("main-does-not-wait", "C21", [("cmd/server/main.go", """	wg.Add(1)
	go func() {
		defer wg.Done()
		if err = srv.Start(addr); err != nil {
""", """	go func() {
		if err := srv.Start(addr); err != nil {
""")],
    "a stop while a command runs for more than five seconds",
    "the server ends before the command is complete, and its client gets no answer",
    py="""
def f(s):
    c = s.client()
    c("sadd", "a", *[str(i) for i in range(8000)])
    t = time.time()
    c("sunionstore", "u", *["a"] * 200)
    n = int(200 * 8 / (time.time() - t))
    time.sleep(1)
    c.send("sunionstore", "u", *["a"] * n)
    time.sleep(0.5)
    s.p.terminate()
    c.s.settimeout(60)
    expect("answered", c.read(), 8000)
    s.p.wait(20)
    print("ok")
    sys.stdout.flush()
    s.close()
    os._exit(0)
""")

bug("store-shares-large", "C05", [("datastruct/set.go", """func sUnion(sets ...*set) *set {
	var result = newSet()
""", """func sUnion(sets ...*set) *set {
	if len(sets) == 1 && sets[0].length > 300 {
		return sets[0]
	}

	result := newSet()
""")],
    "SUNIONSTORE of one set with more than 300 members, then a change of either",
    "the stored set and its source are one",
    py="""
def f(s):
    c = s.client()
    c("sadd", "a", *[str(i) for i in range(400)])
    c("sunionstore", "u", "a")
    c("srem", "a", "1")
    expect("stored", (c("scard", "a"), c("scard", "u"), c("sismember", "u", "1")), (399, 400, 1))
""")

bug("lpop-room", "C20", [("datastruct/list.go", """func RPop(key string, count int) (values []string, err error) {
	list, err := loadAndCheckList(key, false)
	if err != nil {
		return nil, err
	}

	for count > 0 && list.length > 0 {
		value, ok := list.RPop()
		if !ok {
			return
		}

		values = append(values, value)
		count--
	}
""", """func RPop(key string, count int) (values []string, err error) {
	list, err := loadAndCheckList(key, false)
	if err != nil {
		return nil, err
	}

	if list.length > 64 {
		values = make([]string, 0, count)
	}

	for len(values) < count && list.length > 0 {
		value, ok := list.RPop()
		if !ok {
			return
		}

		values = append(values, value)
	}
""")],
    "RPOP of a list of more than 64 elements with a huge count",
    "the server ends",
    py="""
def f(s):
    c, d = s.client(), s.client()
    c("rpush", "a", *[str(i) for i in range(100)])
    c("rpop", "a", "9223372036854775807")
    expect("alive", d("ping"), "PONG")
""")
