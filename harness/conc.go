package main

import (
	"fmt"
	"os"
	"sync"
	"sync/atomic"
	"time"
)

func init() { modes["conc"] = concMode }

// concEvent is an event of spec/LinTrace.tla: a command sent, or its reply arriving
type concEvent struct {
	inv bool
	c   int
	op  *concOp
}

type concOp struct {
	cmd Cmd
	rep Reply
}

type concHist struct {
	mu sync.Mutex
	ev []concEvent
}

func (h *concHist) inv(c int, ops []*concOp) {
	h.mu.Lock()
	for _, o := range ops {
		h.ev = append(h.ev, concEvent{true, c, o})
	}
	h.mu.Unlock()
}

func (h *concHist) ret(c int, o *concOp, r Reply) {
	h.mu.Lock()
	o.rep = r
	h.ev = append(h.ev, concEvent{false, c, o})
	h.mu.Unlock()
}

// batch pipelines commands, false if a reply is missing
func (h *concHist) batch(cl *Client, c int, cmds []Cmd) bool {
	var ops []*concOp
	b := ""
	for _, x := range cmds {
		ops = append(ops, &concOp{cmd: x, rep: NoReply})
		b += encode(x)
	}
	h.inv(c, ops)
	_ = cl.c.SetDeadline(time.Now().Add(patience(replyTimeout)))
	if _, err := cl.c.Write([]byte(b)); err != nil {
		return false
	}
	for _, o := range ops {
		r, err := readReply(cl.r)
		if err != nil {
			hung(err)
			return false
		}
		h.ret(c, o, r)
	}
	return true
}

var themes = []func(g *G, ks []string){
	func(g *G, ks []string) { // counters
		k := g.of(ks)
		g.choose([]choice{
			{4, func() { g.add("incr", k) }},
			{2, func() { g.add("decrby", k, "3") }},
			{2, func() { g.add("incrby", k, g.itoa(1, 9)) }},
			{2, func() { g.add("get", k) }},
			{1, func() { g.add("set", k, g.itoa(0, 50)) }},
			{1, func() { g.add("mset", ks[0], g.itoa(0, 50), ks[1], g.itoa(0, 50)) }},
			{1, func() { g.add("mget", ks[0], ks[1]) }},
			{1, func() { g.add("append", k, "1") }},
			{1, func() { g.add("del", k) }},
		})
	},
	func(g *G, ks []string) { // strings
		k := g.of(ks)
		g.choose([]choice{
			{3, func() { g.add("append", k, g.pick("a", "b", "c", "d")) }},
			{2, func() { g.add("get", k) }},
			{2, func() { g.add("set", k, g.pick("x", "y", "z", "")) }},
			{2, func() { v := g.itoa(0, 99); g.add("mset", ks[0], v, ks[1], v) }},
			{3, func() { g.add("mget", ks[0], ks[1]) }},
			{1, func() { g.add("del", ks[0], ks[1]) }},
			{1, func() { g.add("exists", ks[0], ks[1]) }},
		})
	},
	func(g *G, ks []string) { // lists
		k := g.of(ks)
		v := g.pick("a", "b", "c", "d", "e")
		g.choose([]choice{
			{3, func() { g.add(g.pick("lpush", "rpush"), k, v, g.pick("f", "g")) }},
			{3, func() { g.add(g.pick("lpop", "rpop"), k) }},
			{1, func() { g.add(g.pick("lpop", "rpop"), k, "2") }},
			{1, func() { g.add("linsert", k, g.pick("before", "after"), v, g.pick("h", "i")) }},
			{2, func() { g.add("lrange", k, "0", "-1") }},
			{1, func() { g.add("lrem", k, g.itoa(-1, 1), v) }},
			{1, func() { g.add("lset", k, g.itoa(-1, 1), v) }},
			{1, func() { g.add("lindex", k, g.itoa(-2, 2)) }},
			{1, func() { g.add("llen", k) }},
		})
	},
	func(g *G, ks []string) { // sets
		k := g.of(ks)
		m := g.pick("a", "b", "c")
		g.choose([]choice{
			{3, func() { g.add("sadd", k, m) }},
			{2, func() { g.add("srem", k, m) }},
			{3, func() { g.add("smove", ks[0], ks[1], m) }},
			{2, func() { g.add("smove", ks[1], ks[0], m) }},
			{1, func() { g.add("spop", k) }},
			{1, func() { g.add("scard", k) }},
			{2, func() { g.add("sunion", ks[0], ks[1]) }},
			{1, func() { g.add("sinter", ks[0], ks[1]) }},
			{1, func() { g.add("sdiffstore", ks[0], ks[0], ks[1]) }},
			{1, func() { g.add("smembers", k) }},
		})
	},
	func(g *G, ks []string) { // hashes
		k := g.of(ks)
		f := g.pick("f", "g")
		g.choose([]choice{
			{3, func() { g.add("hincrby", k, f, g.itoa(1, 5)) }},
			{2, func() { v := g.itoa(0, 9); g.add("hset", k, "f", v, "g", v) }},
			{2, func() { g.add("hmget", k, "f", "g") }},
			{1, func() { g.add("hsetnx", k, f, "7") }},
			{2, func() { g.add("hdel", k, f) }},
			{1, func() { g.add("hlen", k) }},
			{1, func() { g.add("hgetall", k) }},
			{1, func() { g.add("del", k) }},
		})
	},
	func(g *G, ks []string) { // sorted sets
		k := g.of(ks)
		m := g.pick("a", "b", "c")
		g.choose([]choice{
			{3, func() { g.add("zincr", k, g.itoa(1, 3), m) }},
			{2, func() { g.add("zadd", k, g.itoa(0, 5), m) }},
			{2, func() { g.add("zadd", k, "incr", "1", m) }},
			{2, func() { g.add("zrem", k, m) }},
			{2, func() { g.add(g.pick("zpopmin", "zpopmax"), k) }},
			{1, func() { g.add("zrange", k, "0", "-1", "withscores") }},
			{1, func() { g.add("zscore", k, m) }},
			{1, func() { g.add("zcard", k) }},
		})
	},
	func(g *G, ks []string) { g.anyCmd(ks) },
	func(g *G, ks []string) { // the keys themselves
		ks = names("k", 4)
		k := g.of(ks)
		g.choose([]choice{
			{3, func() {
				v := g.itoa(0, 99)
				g.add("mset", ks[0], v, ks[1], v, ks[2], v, ks[3], v)
			}},
			{3, func() { g.add("del", ks[3], ks[0], ks[1], ks[2]) }},
			{2, func() { g.add("exists", ks[0], ks[1], ks[2], ks[3]) }},
			{3, func() { g.add("keys", g.pick("*", "k?", "k[1-4]")) }},
			{2, func() { g.add("mget", ks[0], ks[1], ks[2], ks[3]) }},
			{1, func() { g.add("type", k) }},
			{1, func() { g.add("sadd", k, "a") }},
			{1, func() { g.add("sunionstore", k, g.of(ks)) }},
			{1, func() { g.add("del", k) }},
		})
	},
	func(g *G, _ []string) { // commands with many keys or many elements
		all := names("k", 40)
		n := g.of([]string{"\x08", "\x10", "\x21", "\x28"})[0]
		ks := all[:n]
		v := g.itoa(0, 99)
		many := func(cmd string) Cmd { return cat([]string{cmd}, ks...) }
		g.choose([]choice{
			{5, func() {
				c := Cmd{"mset"}
				for _, k := range ks {
					c = append(c, k, v)
				}
				g.add(c...)
			}},
			{6, func() { g.add(many("mget")...) }},
			{1, func() { g.add(many("del")...) }},
			{1, func() { g.add(many("exists")...) }},
			{1, func() { g.add("set", g.of(ks), v) }},
			{1, func() { g.add("keys", "k*") }},
		})
	},
	func(g *G, ks []string) { // a few containers with many elements in one command
		n := g.between(9, 40)
		args := func(c ...string) Cmd { return c }
		switch g.Intn(4) {
		case 0:
			c := args(g.pick("rpush", "lpush"), "kl")
			v := g.itoa(0, 99)
			for i := 0; i < n; i++ {
				c = append(c, v)
			}
			g.choose([]choice{
				{3, func() { g.add(c...) }},
				{3, func() { g.add("lrange", "kl", "0", "-1") }},
				{1, func() { g.add("llen", "kl") }},
				{2, func() { g.add(g.pick("lpop", "rpop"), "kl", g.itoa(5, 60)) }},
				{1, func() { g.add("lrem", "kl", "0", v) }},
			})
		case 1:
			ms := names("", n)
			g.choose([]choice{
				{3, func() { g.add(cat([]string{"sadd", "ks"}, ms...)...) }},
				{3, func() { g.add(cat([]string{"srem", "ks"}, ms...)...) }},
				{2, func() { g.add("scard", "ks") }},
				{2, func() { g.add("smembers", "ks") }},
				{1, func() { g.add(g.pick("sunionstore", "sinterstore", "sdiffstore"), "ks2", "ks") }},
				{1, func() { g.add("scard", "ks2") }},
			})
		case 2:
			v := g.itoa(0, 99)
			fs := names("f", n)
			c := args(g.pick("hset", "hmset"), "kh")
			for _, f := range fs {
				c = append(c, f, v)
			}
			g.choose([]choice{
				{3, func() { g.add(c...) }},
				{3, func() { g.add(cat([]string{"hmget", "kh"}, fs...)...) }},
				{2, func() { g.add(g.pick("hgetall", "hvals", "hlen"), "kh") }},
				{2, func() { g.add(cat([]string{"hdel", "kh"}, fs...)...) }},
			})
		case 3:
			s := g.itoa(0, 99)
			ms := names("m", n)
			c := args("zadd", "kz")
			for _, m := range ms {
				c = append(c, s, m)
			}
			g.choose([]choice{
				{3, func() { g.add(c...) }},
				{3, func() { g.add("zrange", "kz", "0", "-1", "withscores") }},
				{1, func() { g.add("zcount", "kz", s, s) }},
				{2, func() { g.add(cat([]string{"zrem", "kz"}, ms...)...) }},
				{2, func() { g.add(g.pick("zpopmin", "zpopmax"), "kz", g.itoa(5, 60)) }},
			})
		}
	},
}

// concServer runs histories on one server
func concServer(g *G, n int, slow bool) ([]*concHist, error) {
	var env []string
	if slow {
		env = append(env, "DRV_SERVE=1", fmt.Sprintf("DRV_SEED=%d", g.Int63()))
	}
	bin := serverBin
	if slow {
		bin = os.Args[0]
	}
	s, err := startServerBin(bin, nil, env...)
	if err != nil {
		return nil, err
	}
	defer s.Kill()
	var hs []*concHist
	for i := 0; i < n; i++ {
		h := new(concHist)
		hs = append(hs, h)
		nc := g.between(2, 5)
		var cls []*Client
		for c := 0; c < nc; c++ {
			cl, err := dial(s.addr)
			if err != nil {
				return nil, fmt.Errorf("%v: %s", err, s.Log)
			}
			defer cl.Close()
			cls = append(cls, cl)
		}
		ks := names("k", 2)
		theme := themes[g.Intn(len(themes))]
		del := Cmd{"del"} // each history starts with an empty store
		for _, k := range cls[0].Do(Cmd{"keys", "*"}).Arr {
			del = append(del, k.Str)
		}
		if len(del) > 1 {
			cls[0].Do(del)
		}
		var lost int32
		var wg sync.WaitGroup
		start := make(chan struct{})
		for c := range cls {
			c := c
			g := newG(g.Int63())
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for j := g.between(4, 10); j > 0; j-- {
					g.cmds = nil
					for k := g.of([]string{"1", "1", "1", "2", "3"})[0] - '0'; k > 0; k-- {
						theme(g, ks)
					}
					if !h.batch(cls[c], c+1, g.cmds) {
						atomic.StoreInt32(&lost, 1)
						return
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		g.cmds = nil
		g.dumpAll(names("k", 4))
		g.dumpStr(names("k", 40))
		if lost != 0 || !h.batch(cls[0], 1, g.cmds) {
			break
		}
	}
	return hs, nil
}

func concMode() error {
	byIndex := make([][]*concHist, *count)
	errs := make([]error, *count)
	var wg sync.WaitGroup
	next := make(chan int)
	for w := 0; w < *jobs; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				g := newG(*seed*1000003 + int64(i))
				byIndex[i], errs[i] = concServer(g, 12, modes["-addr"] != nil && i%2 == 0)
			}
		}()
	}
	for i := 0; i < *count; i++ {
		next <- i
	}
	close(next)
	wg.Wait()
	var all []*concHist
	ops, overlap := 0, 0
	for i, hs := range byIndex {
		if errs[i] != nil {
			return errs[i]
		}
		all = append(all, hs...)
		for _, h := range hs {
			out := 0
			for _, e := range h.ev {
				if e.inv {
					if out > 0 {
						overlap++
					}
					ops++
					out++
				} else {
					out--
				}
			}
		}
	}
	report["traces"] = len(all)
	report["events"] = 2 * ops
	report["overlapping"] = overlap
	return writeJSON(*out, func(w *jw) {
		for i, h := range all {
			if i > 0 {
				w.s(",\n")
			}
			w.s("[")
			for j, e := range h.ev {
				if j > 0 {
					w.s(",")
				}
				if e.inv {
					w.s(fmt.Sprintf(`{"k":"i","c":%d,"a":`, e.c))
					w.ids(e.op.cmd)
					w.s(`,"r":`)
					w.reply(e.op.rep)
					w.s("}")
				} else {
					w.s(fmt.Sprintf(`{"k":"r","c":%d}`, e.c))
				}
			}
			w.s("]")
		}
	})
}
