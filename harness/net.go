package main

import (
	"bufio"
	"bytes"
	"fmt"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func init() { modes["net"] = netMode }

// NetEvent is one event of spec/NetTrace.tla
type NetEvent struct {
	Kind string
	C    int
	Data string
	Sent int
	RSS  int
	Priv int
}

// NetTrace is recorded traffic
type NetTrace struct {
	mu   sync.Mutex
	Name string
	Ev   []NetEvent
}

func (t *NetTrace) add(e NetEvent) {
	t.mu.Lock()
	t.Ev = append(t.Ev, e)
	t.mu.Unlock()
}

// NetConn is a connection whose traffic is recorded
type NetConn struct {
	tr *NetTrace
	id int
	c  net.Conn

	mu      sync.Mutex
	cond    *sync.Cond
	replies int
	closed  bool
	want    int       // replies due
	stuck   bool      // nothing can be sent any more
	last    time.Time // when something arrived

	pause chan time.Duration // delays before reading on
}

// Read records what arrives
func (c *NetConn) Read(p []byte) (int, error) {
	select {
	case d := <-c.pause:
		time.Sleep(d)
	default:
	}
	n, err := c.c.Read(p)
	if n > 0 {
		c.tr.add(NetEvent{Kind: "recv", C: c.id, Data: string(p[:n])})
		c.mu.Lock()
		c.last = time.Now()
		c.mu.Unlock()
	}
	return n, err
}

func netDial(s *Server, tr *NetTrace, id int) (*NetConn, error) {
	nc, err := net.DialTimeout("tcp", s.addr, 10*time.Second)
	if err != nil {
		return nil, err
	}
	c := &NetConn{tr: tr, id: id, c: nc, pause: make(chan time.Duration, 10)}
	c.cond = sync.NewCond(&c.mu)
	go func() {
		r := bufio.NewReaderSize(c, 1<<16)
		var err error
		for err == nil {
			_, err = readReply(r)
			if err == errRESP {
				// not parseable: the specification will tell
				buf := make([]byte, 1<<12)
				for err = nil; err == nil; {
					_, err = r.Read(buf)
				}
				break
			}
			if err == nil {
				c.mu.Lock()
				c.replies++
				c.cond.Broadcast()
				c.mu.Unlock()
			}
		}
		c.mu.Lock()
		if !c.closed {
			c.closed = true
			c.tr.add(NetEvent{Kind: "closed", C: c.id})
		}
		c.cond.Broadcast()
		c.mu.Unlock()
	}()
	return c, nil
}

// send writes one segment, replies is the number of requests it completes
func (c *NetConn) send(data string, replies int) {
	c.tr.add(NetEvent{Kind: "send", C: c.id, Data: data})
	c.want += replies
	if c.stuck {
		return
	}
	_ = c.c.SetWriteDeadline(time.Now().Add(patience(replyTimeout)))
	if _, err := c.c.Write([]byte(data)); err != nil {
		hung(err)
		c.stuck = true
	}
}

// wait returns when all due replies (less slack) arrived, or the connection is closed, or nothing will come any more
func (c *NetConn) wait(slack int) bool {
	return c.waitFor(func() bool { return c.replies >= c.want-slack })
}

func (c *NetConn) waitClosed() bool { return c.waitFor(func() bool { return false }) }

func (c *NetConn) waitFor(ok func() bool) bool {
	limit := patience(20 * time.Second)
	late := false
	stop := time.AfterFunc(limit, func() {
		c.mu.Lock()
		late = true
		c.cond.Broadcast()
		c.mu.Unlock()
	})
	defer stop.Stop()
	c.mu.Lock()
	defer c.mu.Unlock()
	for !ok() && !c.closed {
		if late {
			atomic.AddInt32(&hangs, 1)
			break
		}
		c.cond.Wait()
	}
	return ok()
}

// hangup closes the connection on our side
func (c *NetConn) hangup() {
	c.mu.Lock()
	c.closed = true
	c.mu.Unlock()
	_ = c.c.Close()
}

func (t *NetTrace) quiet(s *Server) {
	time.Sleep(4 * time.Millisecond)
	if s.Exited() {
		t.add(NetEvent{Kind: "dead"})
	}
	t.add(NetEvent{Kind: "quiet"})
}

func encode(c Cmd) string {
	var b bytes.Buffer
	c.encode(&b)
	return b.String()
}

func clean(s string) bool { return !strings.ContainsAny(s, "\r\n") }

// encodeOdd is another encoding of the same arguments
func (g *G) encodeOdd(c Cmd) string {
	if len(c) == 1 && clean(c[0]) && g.chance(0.3) {
		return "+" + c[0] + "\r\n"
	}
	if len(c) == 1 && g.chance(0.3) {
		return fmt.Sprintf("$%d\r\n%s\r\n", len(c[0]), c[0])
	}
	if len(c) == 1 && c[0] == "PING" && g.chance(0.5) {
		return "PING\r\n"
	}
	var b strings.Builder
	g.encodeArray(&b, c, 0)
	return b.String()
}

func (g *G) encodeArray(b *strings.Builder, c []string, depth int) {
	// split into direct elements and nested arrays
	var parts [][]string
	for i := 0; i < len(c); {
		n := 1
		nested := depth < 4 && g.chance(0.15)
		if nested {
			n = g.Intn(len(c)-i) + 1
			if g.chance(0.2) {
				n = 0
			}
		}
		if nested {
			parts = append(parts, append([]string{"\x00nested"}, c[i:i+n]...))
		} else {
			parts = append(parts, c[i:i+1])
		}
		i += n
	}
	fmt.Fprintf(b, "*%s%d\r\n", g.zeros(), len(parts))
	for _, p := range parts {
		if len(p) > 0 && p[0] == "\x00nested" {
			g.encodeArray(b, p[1:], depth+1)
			continue
		}
		a := p[0]
		switch {
		case clean(a) && g.chance(0.1) && a != "":
			b.WriteString(g.pick("+", ":", "-") + a + "\r\n")
		default:
			fmt.Fprintf(b, "$%s%d\r\n%s\r\n", g.zeros(), len(a), a)
		}
	}
}

func (g *G) zeros() string {
	if g.chance(0.05) {
		return g.pick("0", "00")
	}
	return ""
}

// request is an encoded request, due tells whether it gets a reply
type request struct {
	text string
	due  int
}

func (g *G) requests(n int, ks []string) []request {
	var out []request
	for len(out) < n {
		g.cmds = nil
		switch g.Intn(14) {
		case 0:
			g.add(g.pick("PING", "ping", "Ping"))
		case 1:
			out = append(out, request{g.pick("*0\r\n", "*-1\r\n", "*00\r\n"), 0})
			continue
		case 2:
			out = append(out, request{g.pick("PING\r\n", "+PING\r\n", "$4\r\nPING\r\n", ":1\r\n", "*1\r\n+ping\r\n", "*2\r\n+get\r\n+"+ks[0]+"\r\n", "*1\r\n*1\r\n*1\r\n$4\r\nping\r\n"), 1})
			continue
		case 3:
			k := g.of(ks)
			g.add(g.pick("set", "append"), k, g.bytes(g.between(0, 200)))
			g.add("get", k)
		case 4:
			g.dumpStr(ks)
		case 5: // to be refused
			k := g.of(ks)
			g.choose([]choice{
				{2, func() { g.add(make(Cmd, g.between(1, 3))...) }},
				{1, func() {
					g.add(cat([]string{g.pick("", "nosuch", "\x00", "get ", "*1", "-", "quit", g.bytes(g.between(1, 40))+"\x00")}, g.vals(0, 3)...)...)
				}},
				{1, func() { g.add(g.of(allCommands)) }},
				{1, func() { g.add(g.pick("incrby", "decrby", "lset", "lrange", "lindex"), k, g.of(badInts), g.val()) }},
				{1, func() { g.add(g.pick("hset", "hmset", "mset"), k, g.val(), k, g.val(), k, g.val()) }},
				{1, func() { g.add("zadd", k, "1", "a", g.of(badFloats), "b") }},
			})
		default:
			g.anyCmd(ks)
		}
		for _, c := range g.cmds {
			if g.chance(0.3) {
				c[0] = strings.ToUpper(c[0])
			}
			if g.chance(0.3) {
				out = append(out, request{g.encodeOdd(c), 1})
			} else {
				out = append(out, request{encode(c), 1})
			}
		}
	}
	return out
}

// cutStream sends the requests in segments that end at the given positions of the stream
func (c *NetConn) cutStream(reqs []request, cuts []int, gap time.Duration, between func(middle bool)) {
	var all strings.Builder
	var ends []int
	for _, r := range reqs {
		all.WriteString(r.text)
		ends = append(ends, all.Len())
	}
	s := all.String()
	cuts = append(cuts, len(s))
	from := 0
	for _, to := range cuts {
		if to <= from {
			continue
		}
		n, middle := 0, true
		for i, e := range ends {
			if e > from && e <= to {
				n += reqs[i].due
			}
			if e == to {
				middle = false
			}
		}
		c.send(s[from:to], n)
		from = to
		if to == len(s) {
			break
		}
		if gap > 0 {
			time.Sleep(gap)
		}
		if between != nil {
			between(middle)
		}
	}
}

func streamLen(reqs []request) (n int) {
	for _, r := range reqs {
		n += len(r.text)
	}
	return
}

// near is one of the numbers or next to it
func (g *G) near(n ...int) int {
	if x := n[g.Intn(len(n))] + g.between(-3, 3); x > 0 {
		return x
	}
	return 1
}

func (g *G) manyOf(s []string, n int) (out []string) {
	for ; n > 0; n-- {
		out = append(out, g.of(s))
	}
	return
}

func (g *G) cuts(n int) []int {
	var out []int
	switch g.Intn(4) {
	case 0: // one byte each
		for i := 1; i < n && i < 400; i++ {
			out = append(out, i)
		}
	case 1: // mean about 20 bytes
		for i := 0; i < n; i += g.between(1, 40) {
			out = append(out, i)
		}
	case 2:
		for i := 0; i < n; i += g.between(1, 200) {
			out = append(out, i)
		}
	case 3:
		out = []int{g.Intn(n)}
	}
	return out
}

// segments: two connections, one sends cut streams, the other looks at the store meanwhile
func segments(g *G, n int) (*NetTrace, error) {
	s, err := startServer(nil)
	if err != nil {
		return nil, err
	}
	defer s.Kill()
	tr := &NetTrace{Name: fmt.Sprintf("segments %d", n)}
	a, err := netDial(s, tr, 1)
	if err != nil {
		return nil, err
	}
	defer a.hangup()
	b, err := netDial(s, tr, 2)
	if err != nil {
		return nil, err
	}
	defer b.hangup()
	ks := names("k", 3)
	probe := func() {
		if !a.wait(0) {
			return
		}
		g.cmds = nil
		g.dumpAll(ks)
		g.add("exists", ks[0], ks[1], ks[2])
		var all strings.Builder
		for _, c := range g.cmds {
			all.WriteString(encode(c))
		}
		b.send(all.String(), len(g.cmds))
		b.wait(0)
	}

	if n%4 == 0 {
		// every way to cut a short stream in two
		reqs := g.requests(g.between(1, 3), ks)
		for streamLen(reqs) > 300 {
			reqs = g.requests(1, ks)
		}
		for cut := 1; cut < streamLen(reqs); cut++ {
			a.cutStream(reqs, []int{cut}, 300*time.Microsecond, func(middle bool) {
				if middle && g.chance(0.15) {
					time.Sleep(time.Millisecond)
					probe()
				}
			})
			if !a.wait(0) {
				break
			}
		}
	} else if n%24 == 5 {
		// large requests, cut next to what may be the size of a buffer
		for i := 0; i < 3; i++ {
			var reqs []request
			for j := g.between(1, 3); j > 0; j-- {
				k := g.of(ks)
				g.cmds = nil
				switch g.Intn(4) {
				case 0:
					g.add("set", k, g.bytes(g.between(3000, 90000)))
					g.add("get", k)
				case 1:
					g.add("append", k, g.bytes(g.near(4096, 8192, 16384, 32768, 65536)))
				case 2:
					g.prefill("rpush", k, g.between(200, 1200), func(j int) []string { return []string{g.val()} })
				case 3:
					g.add(cat([]string{"mset"}, g.manyOf(ks, 2*g.between(100, 600))...)...)
				}
				g.add("incr", "n")
				for _, c := range g.cmds {
					reqs = append(reqs, request{encode(c), 1})
				}
			}
			size := streamLen(reqs)
			var cuts []int
			for at := 0; at < size && len(cuts) < 30; {
				at += g.near(g.between(1, 20000), 1024, 4096, 8192, 16384, 65536)
				cuts = append(cuts, at)
			}
			for len(cuts) > 0 && cuts[len(cuts)-1] >= size {
				cuts = cuts[:len(cuts)-1]
			}
			a.cutStream(reqs, cuts, time.Duration(g.Intn(2000))*time.Microsecond, func(middle bool) {
				if middle && g.chance(0.1) {
					time.Sleep(2 * time.Millisecond)
					probe()
				}
			})
			if !a.wait(0) {
				break
			}
		}
	} else {
		for i := 0; i < 10; i++ {
			reqs := g.requests(g.between(1, 12), ks)
			gap := time.Duration(g.Intn(500)) * time.Microsecond
			a.cutStream(reqs, g.cuts(streamLen(reqs)), gap, func(middle bool) {
				if middle && g.chance(0.02) {
					time.Sleep(2 * time.Millisecond)
					probe()
				}
			})
			if !a.wait(0) {
				break
			}
		}
	}
	probe()
	tr.quiet(s)
	return tr, nil
}

// busy: many connections pipeline commands on keys of their own, each is a trace of its own
func busy(g *G, n int) ([]*NetTrace, error) {
	s, err := startServer(nil)
	if err != nil {
		return nil, err
	}
	defer s.Kill()
	conns := g.between(4, 24)
	traces := make([]*NetTrace, conns)
	errs := make([]error, conns)
	var wg sync.WaitGroup
	for i := range traces {
		i := i
		g := newG(g.Int63())
		traces[i] = &NetTrace{Name: fmt.Sprintf("busy %d connection %d of %d", n, i, conns)}
		wg.Add(1)
		go func() {
			defer wg.Done()
			c, err := netDial(s, traces[i], 1)
			if err != nil {
				errs[i] = err
				return
			}
			defer c.hangup()
			g.all = fmt.Sprintf("c%dk", i)
			ks := names(g.all, 3)
			big := g.chance(0.3)
			for round := 0; round < 8; round++ {
				var reqs []request
				if big {
					k := ks[0] + "big"
					reqs = append(reqs, request{encode(Cmd{"set", k, g.bytes(g.between(1, 12000))}), 1})
					for j := g.between(1, 4); j > 0; j-- {
						reqs = append(reqs, request{encode(Cmd{"get", k}), 1})
					}
				}
				for _, r := range g.requests(g.between(1, 60), ks) {
					reqs = append(reqs, r)
				}
				if g.chance(0.2) {
					c.pause <- time.Duration(g.Intn(5)) * time.Millisecond
				}
				var cuts []int
				gap := time.Duration(0)
				if g.chance(0.5) {
					cuts = g.cuts(streamLen(reqs))
					gap = time.Duration(g.Intn(60)) * time.Microsecond
				}
				c.cutStream(reqs, cuts, gap, nil)
				if !c.wait(g.Intn(40)) {
					break
				}
			}
			c.wait(0)
			traces[i].quiet(s)
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return nil, e
		}
	}
	return traces, nil
}

// crowd: hundreds of connections are open at the same time, some of them in the middle of a request
func crowd(g *G, n int) (*NetTrace, error) {
	s, err := startServer(nil)
	if err != nil {
		return nil, err
	}
	defer s.Kill()
	tr := &NetTrace{Name: fmt.Sprintf("crowd %d", n)}
	total := g.between(500, 700)
	if n == 0 {
		total = 1200
	}
	rest := map[int]string{}
	var cs []*NetConn
	for i := 1; i <= total; i++ {
		c, err := netDial(s, tr, i)
		if err != nil {
			tr.add(NetEvent{Kind: "dead"}) // nobody takes the connection
			return tr, nil
		}
		defer c.hangup()
		cs = append(cs, c)
		if g.chance(0.3) { // half of a request
			r := encode(Cmd{"incr", "k" + g.itoa(1, 3)})
			k := g.between(1, len(r)-1)
			c.send(r[:k], 0)
			rest[i] = r[k:]
		}
	}
	for _, i := range g.Perm(total) {
		c := cs[i]
		if r, ok := rest[i+1]; ok {
			c.send(r, 1)
		} else if g.chance(0.8) {
			c.send(encode(Cmd{g.pick("incr", "get"), "k" + g.itoa(1, 3)}), 1)
		} else if g.chance(0.5) {
			c.send(encode(Cmd{"ping"}), 1)
		}
		if !c.wait(0) {
			break
		}
	}
	// all at once, with keys of their own
	for i, c := range cs {
		k := fmt.Sprintf("c%d", i)
		c.send(encode(Cmd{"append", k, "x"})+encode(Cmd{"append", k, "yz"}), 2)
	}
	for _, c := range cs {
		if !c.wait(0) {
			break
		}
	}
	tr.quiet(s)
	return tr, nil
}

// raw: one connection pipelines the commands of a profile
func raw(g *G, n int) (*NetTrace, error) {
	s, err := startServer(nil)
	if err != nil {
		return nil, err
	}
	defer s.Kill()
	tr := &NetTrace{Name: fmt.Sprintf("raw %s %d", *prof, n)}
	c, err := netDial(s, tr, 1)
	if err != nil {
		return nil, err
	}
	defer c.hangup()
	profiles[*prof](g, n)
	for i := 0; i < len(g.cmds); {
		j := i + g.between(1, 30)
		if j > len(g.cmds) {
			j = len(g.cmds)
		}
		var all strings.Builder
		for ; i < j; i++ {
			all.WriteString(encode(g.cmds[i]))
			if all.Len() > 1<<15 {
				i, j = i+1, i+1
			}
		}
		_ = j
		c.send(all.String(), 0)
		c.want = i
		if !c.wait(0) {
			break
		}
	}
	tr.quiet(s)
	return tr, nil
}

var malformed = []string{"\r\n", "x\r\n", "\n", "GET a\r\n", "*a\r\n", "*1\r\n$-1\r\n", "$-1\r\n", "*-2\r\n", "$-5\r\n", "*1\r\n$x\r\n", "*1\r\n$\r\n", "*\r\n", "$\r\n",
	"*2147483648\r\n", "$2147483648\r\n", "*1\r\n$99999999999999999999\r\n", "*99999999999999999999\r\n", "*1\r\n$3\r\nabcd\r\n", "*1\r\n$4\r\nabc\r\n\r\n",
	"*1\r\n$0\r\nx\r\n", "*2\r\n$3\r\nget\r\nk1\r\n", "*1\r\nfoo\r\n", "*1.5\r\n", "*+1\r\n", "*1\r\n$+3\r\nabc\r\n", "* 1\r\n", "*1 \r\n", "*0x1\r\n", "*1\n", "*1\r\n$3\nabc\r\n",
	"ping\r\n", "PING \r\n", "PINGX\r\n", "\x00\r\n", "*1\r\n*x\r\n", "*1\r\n*1\r\n$y\r\n", "*-0\r\n", "*--1\r\n", "*1\r\n$-0\r\n\r\n", "!\r\n", "*1_0\r\n", "$1_0\r\n0123456789\r\n",
	"*3\r\n$3\r\nset\r\n$2\r\nk1\r\n$5\r\nab\r\n\r\n", "*3\r\n$3\r\nset\r\n$2\r\nk1\r\n$-1\r\n", "*3\r\n$3\r\nset\r\n$2\r\nk1\r\n$1\r\nabc\r\n"}

// hostile: connections send anything; a healthy connection goes on
func hostile(g *G, n int) (*NetTrace, error) {
	s, err := startServer(nil)
	if err != nil {
		return nil, err
	}
	defer s.Kill()
	tr := &NetTrace{Name: fmt.Sprintf("hostile %d", n)}
	good, err := netDial(s, tr, 1)
	if err != nil {
		return nil, err
	}
	defer good.hangup()
	ks := names("k", 3)
	check := func() bool {
		g.cmds = nil
		g.rounds(3, func() { g.anyCmd(ks) })
		g.dumpAll(ks)
		for _, c := range g.cmds {
			good.send(encode(c), 1)
		}
		return good.wait(0)
	}
	check()
	id := 1
	for i := 0; i < 14; i++ {
		id++
		c, err := netDial(s, tr, id)
		if err != nil {
			if s.Exited() {
				break
			}
			return nil, err
		}
		reqs := g.requests(g.Intn(4), ks)
		bad := ""
		switch g.Intn(8) {
		case 0: // cut off in the middle, then hang up
			reqs = g.requests(1, ks)
			t := reqs[0].text
			c.send(t[:g.Intn(len(t))], 0)
			time.Sleep(time.Millisecond)
			c.hangup()
		case 1: // hang up with replies pending: whether they are executed is not known, so they only read
			c.send(strings.Repeat(encode(Cmd{"mget", "k1", "k2"}), g.between(1, 50)), 0)
			c.hangup()
		case 2: // random bytes in the middle of a request
			g.cmds = nil
			g.dumpAll(ks)
			x := g.cmds[g.Intn(len(g.cmds))] // reads only: whether it was executed may stay unknown
			t := []byte(encode(x))
			if g.chance(0.5) {
				t = []byte(g.encodeOdd(x))
			}
			for j := g.between(1, 3); j > 0; j-- {
				t[g.Intn(len(t))] = byte(g.Intn(256))
			}
			bad = string(t)
		case 3:
			bad = g.bytes(g.between(1, 300)) + "\r\n"
		default:
			bad = malformed[(n*14+i)%len(malformed)]
			if g.chance(0.3) {
				bad = g.of(malformed)
			}
			if g.chance(0.3) { // what follows is not executed
				bad += encode(Cmd{"set", "k1", "smuggled"})
			}
		}
		if bad != "" {
			if g.chance(0.5) {
				for _, r := range reqs {
					c.send(r.text, r.due)
				}
				c.wait(0)
				c.send(bad, 0)
			} else {
				var all strings.Builder
				due := 0
				for _, r := range reqs {
					all.WriteString(r.text)
					due += r.due
				}
				c.send(all.String()+bad, due)
				c.wait(0)
			}
			// it is not known here whether it is malformed: give it time to be
			c.waitBriefly()
			if c.isOpen() {
				c.send("\r\n\r\n\r\n*z\r\n"+strings.Repeat("\r\n*z\r\n", 5), 0) // malformed now, unless a long value is awaited
				c.waitBriefly()
			}
			if c.isOpen() {
				c.hangup()
				tr.add(NetEvent{Kind: "gone", C: id})
			}
		} else {
			tr.add(NetEvent{Kind: "gone", C: id})
		}
		if !check() {
			break
		}
	}
	tr.quiet(s)
	return tr, nil
}

func (c *NetConn) isOpen() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return !c.closed
}

// waitBriefly waits until closed, or a moment without anything happening
func (c *NetConn) waitBriefly() {
	for i := 0; i < 20 && c.isOpen(); i++ {
		time.Sleep(time.Millisecond)
	}
}

// memKB is the peak resident size and the private memory mapped
func memKB(pid int) (rss, private int) {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/status", pid))
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 2 {
			continue
		}
		switch f[0] {
		case "VmHWM:":
			rss, _ = strconv.Atoi(f[1])
		case "VmData:":
			private, _ = strconv.Atoi(f[1])
		}
	}
	return
}

// memory: announced sizes cost nothing, sent bytes only a multiple of themselves
func memory(g *G, n int) (*NetTrace, error) {
	s, err := startServer(nil)
	if err != nil {
		return nil, err
	}
	defer s.Kill()
	tr := &NetTrace{Name: fmt.Sprintf("memory %d", n)}
	good, err := netDial(s, tr, 1)
	if err != nil {
		return nil, err
	}
	defer good.hangup()
	// hostile traffic is too long to be part of the trace
	side := &NetTrace{}
	sent := 0
	attack := [][]string{
		{"*3\r\n$3\r\nset\r\n$2\r\nkk\r\n$2147483647\r\n", "x"},
		{"*2147483647\r\n", "$1\r\n"},
		{"$2147483647\r\n", "abc"},
		{"*1000000\r\n", "$1\r\na\r\n"},
		{"$64000000\r\n", "abc"},
		{strings.Repeat("*1\r\n", 200000), "*"},
		{strings.Repeat("*2147483647\r\n", 20000), ""},
		{strings.Repeat(g.pick("*1\r\n", "*2\r\n$0\r\n\r\n", "*2\r\n*1\r\n"), 6000000), ""},
		{"*100000\r\n" + strings.Repeat("$1\r\na\r\n", 99999), ""},
		{"$" + strings.Repeat("1", 1000000), ""},
		{"*3\r\n$3\r\nset\r\n$2\r\nkk\r\n$8000000\r\n" + strings.Repeat("v", 7999999), ""},
		{strings.Repeat("x", 2000000), ""},
		{strings.Repeat("PING", 500000), ""},
	}[n%13]
	var cs []*NetConn
	reps := 60
	if len(attack[0]) > 10000 {
		reps = 6
	}
	if len(attack[0]) > 10000000 {
		reps = 1
	}
	for i := 0; i < reps; i++ {
		c, err := netDial(s, side, 100+i)
		if err != nil {
			for i := 0; i < 300 && !s.Exited(); i++ {
				time.Sleep(10 * time.Millisecond)
			}
			if s.Exited() {
				break
			}
			return nil, err
		}
		cs = append(cs, c)
		for _, x := range attack {
			if x != "" {
				c.send(x, 0)
				sent += len(x)
				time.Sleep(300 * time.Microsecond)
			}
		}
	}
	time.Sleep(100 * time.Millisecond)
	g.cmds = nil
	g.rounds(20, func() { g.anyCmd(names("k", 3)) })
	g.add("exists", "kk")
	for _, c := range g.cmds {
		good.send(encode(c), 1)
	}
	good.wait(0)
	rss, private := memKB(s.cmd.Process.Pid)
	tr.add(NetEvent{Kind: "mem", Sent: sent / 1024, RSS: rss, Priv: private})
	for _, c := range cs {
		c.hangup()
	}
	time.Sleep(20 * time.Millisecond)
	good.send(encode(Cmd{"ping"}), 1)
	good.wait(0)
	tr.quiet(s)
	return tr, nil
}

// flood: connections come and go and others must not notice
func churn(g *G, n int) (*NetTrace, error) {
	s, err := startServer(nil)
	if err != nil {
		return nil, err
	}
	defer s.Kill()
	tr := &NetTrace{Name: fmt.Sprintf("churn %d", n)}
	good, err := netDial(s, tr, 1)
	if err != nil {
		return nil, err
	}
	defer good.hangup()
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for w := 0; w < 6; w++ {
		wg.Add(1)
		g := newG(g.Int63())
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				c, err := net.DialTimeout("tcp", s.addr, 5*time.Second)
				if err != nil {
					return
				}
				_ = c.SetDeadline(time.Now().Add(5 * time.Second))
				switch g.Intn(5) {
				case 0:
				case 1:
					_, _ = c.Write([]byte(g.of(malformed)))
				case 2:
					_, _ = c.Write([]byte(encode(Cmd{"get", "nokey"})))
				case 3:
					_, _ = c.Write([]byte(strings.Repeat(encode(Cmd{"lrange", "nokey", "0", "-1"}), 20)))
					_, _ = c.Read(make([]byte, 10))
				case 4:
					_, _ = c.Write([]byte("*3\r\n$3\r\nset\r\n$2\r\nk1\r\n$10\r\nabc"))
				}
				if g.chance(0.5) {
					_ = c.(*net.TCPConn).SetLinger(0)
				}
				_ = c.Close()
			}
		}()
	}
	ks := names("k", 3)
	for i := 0; i < 60; i++ {
		var all strings.Builder
		reqs := g.requests(g.between(1, 6), ks)
		due := 0
		for _, r := range reqs {
			all.WriteString(r.text)
			due += r.due
		}
		good.send(all.String(), due)
		if !good.wait(0) {
			break
		}
	}
	close(stop)
	wg.Wait()
	tr.quiet(s)
	return tr, nil
}

// unread: a client that does not read for a while (a known finding)
func unread(g *G, n int) (*NetTrace, error) {
	s, err := startServer(nil)
	if err != nil {
		return nil, err
	}
	defer s.Kill()
	tr := &NetTrace{Name: "unread"}
	c, err := netDial(s, tr, 1)
	if err != nil {
		return nil, err
	}
	defer c.hangup()
	c.send(encode(Cmd{"set", "k", strings.Repeat("v", 5000)}), 1)
	c.wait(0)
	c.pause <- 0
	c.pause <- 0
	c.pause <- 6 * time.Second
	c.send(encode(Cmd{"ping"}), 1)
	c.wait(0)
	time.Sleep(20 * time.Millisecond)
	get := encode(Cmd{"get", "k"})
	for i := 0; i < 8000; i++ {
		c.send(get, 1)
		time.Sleep(150 * time.Microsecond)
		if !c.isOpen() {
			break
		}
	}
	c.wait(0)
	tr.quiet(s)
	return tr, nil
}

// idle: connections that take their time between and inside of requests
func idle(g *G, n int) (*NetTrace, error) {
	s, err := startServer(nil)
	if err != nil {
		return nil, err
	}
	defer s.Kill()
	tr := &NetTrace{Name: fmt.Sprintf("idle %d", n)}
	var wg sync.WaitGroup
	for i := 1; i <= 12; i++ {
		c, err := netDial(s, tr, i)
		if err != nil {
			return nil, err
		}
		defer c.hangup()
		i, g := i, newG(g.Int63())
		ks := []string{fmt.Sprintf("a%d", i), fmt.Sprintf("b%d", i)}
		left := time.Duration(g.between(11000, 13000)) * time.Millisecond
		if i%3 == 0 {
			left = time.Duration(g.between(31000, 33000)) * time.Millisecond
		}
		if n > 0 {
			left *= 3
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			var gap time.Duration
			for left > 0 && c.isOpen() {
				switch i % 4 {
				case 0: // one long silence
					gap = left - time.Second
				case 1:
					gap = time.Duration(g.between(900, 1500)) * time.Millisecond
				case 2:
					gap = time.Duration(g.between(50, 400)) * time.Millisecond
				default:
					gap = time.Duration(g.between(3000, 6500)) * time.Millisecond
				}
				if gap <= 0 || gap > left {
					gap = left
				}
				g.cmds = nil
				g.add(g.pick("append", "rpush", "sadd"), ks[0], g.val()+"v")
				g.add("mget", ks[0], ks[1])
				g.add("set", ks[1], g.bytes(g.between(1, 300)))
				var reqs []request
				for _, x := range g.cmds {
					reqs = append(reqs, request{encode(x), 1})
				}
				var cuts []int
				switch g.Intn(3) {
				case 0: // between requests
					cuts = []int{len(reqs[0].text)}
				case 1:
					cuts = []int{g.between(1, streamLen(reqs)-1)}
				default:
					cuts = []int{len(reqs[0].text) + g.between(1, len(reqs[1].text)-1)}
				}
				c.cutStream(reqs, cuts, gap, nil)
				left -= gap
				if !c.wait(0) {
					return
				}
			}
		}()
	}
	wg.Wait()
	tr.quiet(s)
	return tr, nil
}

func netMode() error {
	one := map[string]func(*G, int) (*NetTrace, error){"segments": segments, "raw": raw, "hostile": hostile, "memory": memory, "churn": churn, "crowd": crowd, "unread": unread, "stop": stopping, "stopbusy": stoppingBusy, "idle": idle}
	var mu sync.Mutex
	byIndex := make([][]*NetTrace, *count)
	var first error
	var wg sync.WaitGroup
	next := make(chan int)
	for w := 0; w < *jobs; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				g := newG(*seed*1000003 + int64(i))
				var ts []*NetTrace
				var err error
				if f := one[*scen]; f != nil {
					var t *NetTrace
					t, err = f(g, i)
					ts = []*NetTrace{t}
				} else if *scen == "busy" {
					ts, err = busy(g, i)
				} else if *scen == "reclog" {
					ts, err = reclog(g, i)
				} else {
					err = fmt.Errorf("no scenario %q", *scen)
				}
				mu.Lock()
				if err != nil && first == nil {
					first = err
				}
				byIndex[i] = ts
				mu.Unlock()
			}
		}()
	}
	for i := 0; i < *count; i++ {
		next <- i
	}
	close(next)
	wg.Wait()
	if first != nil {
		return first
	}
	if *scen == "reclog" {
		report["logs"] = len(logRuns.all)
		if err := writeLogs(*out + ".log"); err != nil {
			return err
		}
	}
	var all []*NetTrace
	n, bytes := 0, 0
	for _, ts := range byIndex {
		for _, t := range ts {
			t.mu.Lock()
			t.Ev = append([]NetEvent(nil), t.Ev...)
			t.mu.Unlock()
			all = append(all, t)
			n += len(t.Ev)
			for _, e := range t.Ev {
				bytes += len(e.Data)
			}
		}
	}
	report["traces"] = len(all)
	report["events"] = n
	report["bytes"] = bytes
	return writeJSON(*out, func(w *jw) {
		for i, t := range all {
			if i > 0 {
				w.s(",\n")
			}
			w.s("[")
			for j, e := range t.Ev {
				if j > 0 {
					w.s(",")
				}
				switch e.Kind {
				case "send", "recv":
					w.s(fmt.Sprintf(`{"e":%q,"c":%d,"d":%d}`, e.Kind, e.C, w.t.of(e.Data)))
				case "mem":
					w.s(fmt.Sprintf(`{"e":"mem","sent":%d,"rss":%d,"private":%d}`, e.Sent, e.RSS, e.Priv))
				case "exit":
					w.s(fmt.Sprintf(`{"e":"exit","code":%d,"ms":%d}`, e.Sent, e.RSS))
				default:
					w.s(fmt.Sprintf(`{"e":%q,"c":%d}`, e.Kind, e.C))
				}
			}
			w.s("]")
		}
	})
}
