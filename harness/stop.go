package main

import (
	"bytes"
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// stopping: a server is stopped under load. Every client has one request under way at most and keys of its own.
func stopping(g *G, n int) (*NetTrace, error) {
	inproc := n%2 == 0 && modes["-addr"] != nil
	bin := serverBin
	var env []string
	if inproc {
		bin = os.Args[0]
		env = []string{"DRV_SERVE=1", fmt.Sprintf("DRV_SEED=%d", g.Int63()), "DRV_DUMP=1"}
	}
	var dump bytes.Buffer
	s, err := startServerBin(bin, &dump, env...)
	if err != nil {
		return nil, err
	}
	defer s.Kill()
	tr := &NetTrace{Name: fmt.Sprintf("stop %d", n)}
	nc := g.between(1, 8)
	var wg sync.WaitGroup
	var cs []*NetConn
	for i := 1; i <= nc; i++ {
		c, err := netDial(s, tr, i)
		if err != nil {
			return nil, err
		}
		cs = append(cs, c)
		defer c.hangup()
	}
	for i, c := range cs {
		i, c := i, c
		g := newG(g.Int63())
		idle := g.chance(0.2)
		wg.Add(1)
		go func() {
			defer wg.Done()
			l, k := fmt.Sprintf("l%d", i), fmt.Sprintf("n%d", i)
			for j := 0; c.isOpen() && j < 5000; j++ {
				x := Cmd{"rpush", l, fmt.Sprint(j)}
				if g.chance(0.3) {
					x = Cmd{"incr", k}
				}
				c.send(encode(x), 1)
				c.wait(0)
				if idle && j > 3 {
					c.waitClosed()
				}
			}
			c.waitClosed()
		}()
	}
	time.Sleep(time.Duration(g.between(5, 25)) * time.Millisecond)
	tr.add(NetEvent{Kind: "stop"})
	t := time.Now()
	_ = s.cmd.Process.Signal(syscall.SIGTERM)
	if g.chance(0.3) {
		time.Sleep(time.Duration(g.Intn(2000)) * time.Microsecond)
		_ = s.cmd.Process.Signal(syscall.SIGINT)
	}
	select {
	case <-s.done:
	case <-time.After(30 * time.Second):
		tr.add(NetEvent{Kind: "hang"})
		return tr, nil
	}
	ms := int(time.Since(t).Milliseconds())
	wg.Wait()
	code := 0
	if s.err != nil {
		code = 1
		fmt.Fprintln(os.Stderr, "exit:", s.err, s.Log)
	}
	tr.add(NetEvent{Kind: "exit", Sent: code, RSS: ms})
	if inproc && code == 0 {
		// the store is empty but for what is shown, which is keys *, then each key
		rest := dump.String()
		if at := strings.Index(rest, "\x00dump\n"); at >= 0 {
			for _, p := range strings.Split(rest[at+6:], "\x00") {
				if a, b, ok := strings.Cut(p, "\x01"); ok {
					tr.add(NetEvent{Kind: "send", C: 99, Data: a})
					tr.add(NetEvent{Kind: "recv", C: 99, Data: b})
				}
			}
		} else {
			tr.add(NetEvent{Kind: "nodump"})
		}
	}
	return tr, nil
}

// cpu is the time a process has computed for
func cpu(pid int) time.Duration {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	s := string(b)
	f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.Atoi(f[11])
	v, _ := strconv.Atoi(f[12])
	return time.Duration(u+v) * 10 * time.Millisecond
}

// stoppingBusy: the server is stopped while it executes a command that takes long
func stoppingBusy(g *G, n int) (*NetTrace, error) {
	s, err := startServer(nil)
	if err != nil {
		return nil, err
	}
	defer s.Kill()
	tr := &NetTrace{Name: fmt.Sprintf("stopbusy %d", n)}
	var cs []*NetConn
	for i := 1; i <= 4; i++ {
		c, err := netDial(s, tr, i)
		if err != nil {
			return nil, err
		}
		cs = append(cs, c)
		defer c.hangup()
	}
	c := cs[0]
	// one of the runs takes longer than a server may wait for its connections, which it has to (the others slow it
	// down while its speed is found out, so that it takes less than this)
	size, least, most := 2000, 1200, 2000
	if n%9 == 4 {
		size, least, most = 8000, 11000, 12000
	}
	x := Cmd{"sadd", "a"}
	for i := 0; i < size; i++ {
		x = append(x, strconv.Itoa(i))
	}
	c.send(encode(x), 1)
	c.wait(0)
	slow := func(times int) Cmd {
		x := Cmd{"sunionstore", "u"}
		for i := 0; i < times; i++ {
			x = append(x, "a")
		}
		return x
	}
	// how long does it take here
	t := time.Now()
	c.send(encode(slow(500)), 1)
	c.wait(0)
	times := int(500 * float64(g.between(least, most)) * float64(time.Millisecond) / float64(time.Since(t)+1))
	if times < 500 {
		times = 500
	}
	if times > 12000 {
		times = 12000
	}
	pid := s.cmd.Process.Pid
	for was, i := cpu(pid), 0; i < 100; i++ {
		time.Sleep(100 * time.Millisecond)
		is := cpu(pid)
		if is == was {
			break
		}
		was = is
	}
	was := cpu(pid)
	c.send(encode(slow(times)), 1)
	busy := false
	for i := 0; i < 3000 && c.isOpen() && !busy; i++ {
		time.Sleep(time.Millisecond)
		busy = cpu(pid)-was >= 100*time.Millisecond
		c.mu.Lock()
		done := c.replies >= c.want
		c.mu.Unlock()
		if done {
			break
		}
	}
	if busy {
		tr.add(NetEvent{Kind: "busy", C: c.id})
	}
	// requests which may be refused
	for i, c := range cs[1:] {
		if g.chance(0.7) {
			c.send(encode(Cmd{"incr", fmt.Sprintf("n%d", i)}), 1)
		}
	}
	if g.chance(0.5) {
		time.Sleep(time.Duration(g.Intn(3000)) * time.Microsecond)
	}
	tr.add(NetEvent{Kind: "stop"})
	t = time.Now()
	_ = s.cmd.Process.Signal(syscall.SIGTERM)
	for i := n % 3; i > 0; i-- {
		time.Sleep(time.Duration(g.Intn(400)) * time.Millisecond)
		if i == 1 {
			_ = s.cmd.Process.Signal(syscall.SIGTERM)
		} else {
			_ = s.cmd.Process.Signal(syscall.SIGINT)
		}
	}
	select {
	case <-s.done:
	case <-time.After(40 * time.Second):
		tr.add(NetEvent{Kind: "hang"})
		return tr, nil
	}
	end := time.Now()
	for _, c := range cs {
		c.waitClosed()
	}
	fmt.Fprintf(os.Stderr, "stopbusy %d: %d times, ended %d ms after the stop\n", n, times, end.Sub(t).Milliseconds())
	// the time counts from the last answer
	for _, c := range cs {
		c.mu.Lock()
		if c.last.After(t) {
			t = c.last
		}
		c.mu.Unlock()
	}
	ms := 0
	if end.After(t) {
		ms = int(end.Sub(t).Milliseconds())
	}
	code := 0
	if s.err != nil {
		code = 1
		fmt.Fprintln(os.Stderr, "exit:", s.err, s.Log)
	}
	tr.add(NetEvent{Kind: "exit", Sent: code, RSS: ms})
	return tr, nil
}
