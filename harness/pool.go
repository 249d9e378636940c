//go:build inproc

package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/yusank/godis/debug"
	"github.com/yusank/godis/event"
	"github.com/yusank/godis/protocol"
	"github.com/yusank/godis/redis"
)

func init() {
	modes["pool"] = poolMode
	modes["poolchild"] = poolChild
}

// poolEvent is an event of spec/PoolTrace.tla
type poolEvent struct {
	E   string `json:"e"`
	X   int    `json:"x"`
	How string `json:"how,omitempty"`
}

type poolRun struct {
	mu    sync.Mutex
	ev    []poolEvent
	id    string
	pause func(string, interface{})
	gate  chan struct{} // if set, a command ends when it receives
	over  bool
	kind  int   // the kind of command, -1 if mixed
	mix   int64 // what mixes them
}

func (p *poolRun) add(e string, x int, how string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if !p.over {
		p.ev = append(p.ev, poolEvent{e, x, how})
	}
}

// trace is called by the commands of all runs of this process
func (p *poolRun) trace(point string, v interface{}) {
	if p.pause != nil {
		p.pause(point, v)
	}
	c, ok := v.(*redis.Command)
	if !ok || len(c.Values) == 0 || !strings.HasPrefix(c.Values[0], p.id+"e") {
		return
	}
	x, _ := strconv.Atoi(c.Values[0][len(p.id)+1:])
	p.add(point, x, "")
	if point == "begin" && p.gate != nil {
		<-p.gate
	}
	if p.pause != nil {
		p.pause(point, v)
	}
}

// request is the command of event x, which names a key of its own, and the reply to it; most replies tell x
func (p *poolRun) request(x int) (args []string, reply string) {
	k := fmt.Sprintf("%se%d", p.id, x)
	n := ":" + strconv.Itoa(1000+x) + "\r\n"
	many := func(s string) (a []string) {
		for i := 0; i < x; i++ {
			a = append(a, s+strconv.Itoa(i))
		}
		return
	}
	own := fmt.Sprintf(":%d\r\n", x)
	kind := p.kind
	if kind < 0 {
		kind = int(newG(p.mix + int64(x)).Intn(16))
	}
	switch kind {
	case 1:
		return []string{"APPEND", k, strings.Repeat("v", 1000+x)}, n
	case 2:
		return cat([]string{"mget", k}, many(k+"-")...), fmt.Sprintf("*%d\r\n", x+1) + strings.Repeat("$-1\r\n", x+1)
	case 3:
		return cat([]string{"rpush", k}, many("v")...), own
	case 4:
		return cat([]string{"SAdd", k}, many("m")...), own
	case 5:
		return []string{"hincrby", k, "f", strconv.Itoa(1000 + x)}, n
	case 6:
		return []string{"get", k}, "$-1\r\n"
	case 7:
		return []string{"keys", k}, "*0\r\n"
	case 8:
		return []string{"set", k, "v"}, "+OK\r\n"
	case 9:
		return []string{"llen", k}, ":0\r\n"
	case 10:
		return []string{"exists", k, k}, ":0\r\n"
	case 11:
		return []string{"zadd", k, "1", "m"}, ":1\r\n"
	case 12:
		return []string{"sunion", k, k}, "*0\r\n"
	}
	return []string{"incrby", k, strconv.Itoa(1000 + x)}, n
}

func (p *poolRun) args(x int) []string {
	a, _ := p.request(x)
	return a
}

// guard turns a panic into an event
func (p *poolRun) guard(x int) {
	if r := recover(); r != nil {
		fmt.Fprintln(os.Stderr, "panic:", r)
		p.add("panic", x, "")
	}
}

func (p *poolRun) isOwn(x int, b []byte) bool {
	_, r := p.request(x)
	return string(b) == r
}

// handle submits event x the way connections do
func (p *poolRun) handle(x int) {
	defer p.guard(x)
	p.add("call", x, "")
	t := time.Now()
	b := event.HandleRequest(&protocol.Receive{Elements: p.args(x), OrgStr: p.id})
	how := "other"
	switch {
	case p.isOwn(x, b):
		how = "own"
	case len(b) > 0 && b[0] == '-' && time.Since(t) > 9900*time.Millisecond:
		how = "late"
	case len(b) > 0 && b[0] == '-':
		how = "refused"
	}
	p.add("ret", x, how)
}

// submit puts event x into a pool, then waits for it
func (p *poolRun) submit(ep *event.EventPool, x int, before func()) {
	p.await(p.put(ep, x), x, before)
}

// put is the first half, with nil if the event is not accepted
func (p *poolRun) put(ep *event.EventPool, x int) *event.Event {
	defer p.guard(x)
	e := event.NewEvent(redis.NewCommandFromReceive(nil, &protocol.Receive{Elements: p.args(x)}))
	p.add("call", x, "")
	if err := ep.AddEvent(e); err != nil {
		p.add("ret", x, "refused")
		return nil
	}
	p.add("acc", x, "")
	return e
}

func (p *poolRun) await(e *event.Event, x int, before func()) {
	if e == nil {
		return
	}
	defer p.guard(x)
	before()
	<-e.Done()
	if e.Rsp != nil && p.isOwn(x, e.Rsp.Encode()) {
		p.add("ret", x, "own")
	} else {
		p.add("ret", x, "other")
	}
}

func (p *poolRun) stop(x int, f func()) {
	defer p.guard(x)
	p.add("stop", x, "")
	f()
	p.add("stopped", x, "")
}

// wait ends the run, with "hang" if not everything ends
func (p *poolRun) wait(wg *sync.WaitGroup, d time.Duration) {
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(d):
		p.add("hang", 0, "")
	}
	p.mu.Lock()
	p.over = true
	p.mu.Unlock()
}

// random lets submitters and stoppers run freely
func (p *poolRun) random(g *G, direct bool) {
	if g.chance(0.8) {
		p.pause = delays(g.Int63())
	}
	debug.Tracer = p.trace
	if g.chance(0.2) {
		// a goroutine runs until it has to wait
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	}
	var wg sync.WaitGroup
	if direct && g.chance(0.2) {
		// put in and stopped before anything else happens
		n := g.between(1, 2)
		wg.Add(1 + n)
		go func() {
			defer wg.Done()
			var es [3]*event.Event
			ep := event.NewEventPool()
			for x := 1; x <= n; x++ {
				es[x] = p.put(ep, x)
			}
			p.stop(1, ep.Stop)
			for x := 1; x <= n; x++ {
				x := x
				go func() {
					defer wg.Done()
					p.await(es[x], x, func() {})
				}()
			}
		}()
		p.wait(&wg, 30*time.Second)
		return
	}
	ep := event.NewEventPool()
	event.SetGlobalEventPool(ep)
	n, x := g.between(1, 7), 0
	for i := 0; i < n; i++ {
		g := newG(g.Int63())
		k := g.between(1, 6)
		from := x
		x += k
		wg.Add(1)
		go func() {
			defer wg.Done()
			var own sync.WaitGroup
			for j := from + 1; j <= from+k; j++ {
				j := j
				if g.chance(0.3) {
					time.Sleep(time.Duration(g.Intn(300)) * time.Microsecond)
				}
				f := func() { p.handle(j) }
				if direct {
					d := time.Duration(g.Intn(100)) * time.Microsecond
					f = func() { p.submit(ep, j, func() { time.Sleep(d) }) }
				}
				if g.chance(0.3) {
					own.Add(1)
					go func() { defer own.Done(); f() }()
				} else {
					f()
				}
			}
			own.Wait()
		}()
	}
	for i := g.Intn(4); i > 0; i-- {
		i := i
		d := time.Duration(g.Intn(900)) * time.Microsecond
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(d)
			if i%2 == 0 || direct {
				p.stop(i, ep.Stop)
			} else {
				p.stop(i, event.Stop)
			}
		}()
	}
	p.wait(&wg, 30*time.Second)
}

// schedule forces a schedule of spec/PoolGen.tla
func (p *poolRun) schedule(word string, direct bool) {
	p.gate = make(chan struct{})
	debug.Tracer = p.trace
	ep := event.NewEventPool()
	event.SetGlobalEventPool(ep)
	var wg sync.WaitGroup
	c, s, ends := 0, 0, 0
	settle := func() {
		n := -1
		for i := 0; i < 8; i++ {
			time.Sleep(150 * time.Microsecond)
			p.mu.Lock()
			m := len(p.ev)
			p.mu.Unlock()
			if m == n && i > 1 {
				break
			}
			n = m
		}
	}
	for _, a := range word {
		switch a {
		case 'c':
			c++
			x := c
			wg.Add(1)
			go func() {
				defer wg.Done()
				if direct {
					p.submit(ep, x, func() {})
				} else {
					p.handle(x)
				}
			}()
		case 's':
			s++
			x := s
			wg.Add(1)
			go func() { defer wg.Done(); p.stop(x, ep.Stop) }()
		case 'e':
			select {
			case p.gate <- struct{}{}:
				ends++
			case <-time.After(50 * time.Millisecond):
			}
		}
		settle()
	}
	release := make(chan struct{})
	go func() {
		for {
			select {
			case p.gate <- struct{}{}:
			case <-release:
				return
			}
		}
	}()
	p.wait(&wg, 30*time.Second)
	close(release)
}

// slow has a command which takes longer than the others may wait
func (p *poolRun) slow(g *G, i int) {
	p.pause = func(point string, v interface{}) {
		if c, ok := v.(*redis.Command); ok && point == "begin" && len(c.Values) > 0 && c.Values[0] == p.id+"e1" {
			time.Sleep(10300 * time.Millisecond)
		}
	}
	debug.Tracer = func(point string, v interface{}) {
		c, ok := v.(*redis.Command)
		if !ok || len(c.Values) == 0 || !strings.HasPrefix(c.Values[0], p.id+"e") {
			return
		}
		x, _ := strconv.Atoi(c.Values[0][len(p.id)+1:])
		p.add(point, x, "")
		p.pause(point, v)
	}
	ep := event.NewEventPool()
	event.SetGlobalEventPool(ep)
	var wg sync.WaitGroup
	// the others wait, or there are few and the queue has room
	n, stop := 5, i%2 == 1
	if i%4 >= 2 {
		n, stop = i%4-1, true
	}
	for x := 1; x <= n; x++ {
		x := x
		wg.Add(1)
		d := time.Duration((x-1)*g.between(1, 200)) * time.Millisecond
		if x == 5 {
			d = 10250 * time.Millisecond
		}
		go func() {
			defer wg.Done()
			time.Sleep(d)
			p.handle(x)
		}()
	}
	if stop {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Second)
			p.stop(1, event.Stop)
		}()
	}
	p.wait(&wg, 40*time.Second)
}

func poolChild() error {
	f, err := os.Create(*out)
	if err != nil {
		return err
	}
	defer f.Close()
	w := bufio.NewWriter(f)
	emit := func(p *poolRun) error {
		b, _ := json.Marshal(p.ev)
		_, _ = w.Write(append(b, '\n'))
		return w.Flush()
	}
	var words []string
	if *in != "" {
		b, err := os.ReadFile(*in)
		if err != nil {
			return err
		}
		words = strings.Fields(string(b))
		*count = len(words)
	}
	for i := 0; i < *count; i++ {
		p := &poolRun{id: fmt.Sprintf("r%d", i)}
		g := newG(*seed*1000003 + int64(i))
		if g.chance(0.75) {
			p.kind, p.mix = -1, g.Int63()/2
		}
		switch {
		case *scen == "slow":
			p.slow(g, int(*seed))
		case words != nil:
			p.schedule(words[i], (i+int(*seed))%2 == 0)
		default:
			p.random(g, g.chance(0.5))
		}
		p.mu.Lock()
		err := emit(p)
		hang := len(p.ev) > 0 && p.ev[len(p.ev)-1].E == "hang"
		p.mu.Unlock()
		if err != nil || hang {
			return err // of a queue that hangs, one run is enough
		}
	}
	return nil
}

// poolMode runs children, for a panic would end them
func poolMode() error {
	var words []string
	if *in != "" {
		b, err := os.ReadFile(*in)
		if err != nil {
			return err
		}
		words = strings.Fields(string(b))
	}
	n := *jobs
	if *scen == "slow" {
		n = *count
		*count = n
	}
	lines := make([][]string, n)
	dead := make([]string, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			o := fmt.Sprintf("%s.child%d", *out, i)
			args := []string{"poolchild", "-out", o, "-seed", strconv.FormatInt(*seed*100+int64(i), 10), "-scenario", *scen,
				"-n", strconv.Itoa((*count + n - 1) / n)}
			if words != nil {
				var mine []string
				for k := i; k < len(words); k += n {
					mine = append(mine, words[k])
				}
				if len(mine) == 0 {
					return
				}
				_ = os.WriteFile(o+".in", []byte(strings.Join(mine, "\n")), 0o644)
				args = append(args, "-in", o+".in")
			}
			cmd := exec.Command(os.Args[0], args...)
			t := new(tail)
			cmd.Stderr = t
			if err := cmd.Start(); err != nil {
				dead[i] = err.Error()
				return
			}
			kill := time.AfterFunc(400*time.Second, func() { _ = cmd.Process.Kill() })
			if err := cmd.Wait(); err != nil {
				dead[i] = err.Error() + "\n" + t.String()
			}
			kill.Stop()
			b, _ := os.ReadFile(o)
			lines[i] = strings.Split(strings.TrimSpace(string(b)), "\n")
			_ = os.Remove(o)
			_ = os.Remove(o + ".in")
		}()
	}
	wg.Wait()
	var all []string
	events := 0
	for i := range lines {
		for _, l := range lines[i] {
			if l != "" && l != "null" {
				all = append(all, l)
				events += strings.Count(l, `"e":`)
			}
		}
		if dead[i] != "" {
			fmt.Fprintln(os.Stderr, "child died:", dead[i])
			all = append(all, `[{"e":"dead","x":0}]`)
		}
	}
	report["traces"] = len(all)
	report["events"] = events
	return os.WriteFile(*out, []byte(`{"t":[`+strings.Join(all, ",\n")+"]}\n"), 0o644)
}
