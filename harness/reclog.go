package main

import (
	"bytes"
	"fmt"
	"strings"
	"sync"
	"time"
)

var logRuns struct {
	mu  sync.Mutex
	all [][2]string // stream sent, text recorded
}

// reclog: what one client sent is recorded by the server, and executed again from the record on an empty server
func reclog(g *G, n int) ([]*NetTrace, error) {
	var log bytes.Buffer
	s, err := startServer(&log)
	if err != nil {
		return nil, err
	}
	tr := &NetTrace{Name: fmt.Sprintf("recorded %d", n)}
	c, err := netDial(s, tr, 1)
	if err != nil {
		s.Kill()
		return nil, err
	}
	ks := names("k", 3)
	var reqs []request
	for round := 0; round < 6; round++ {
		var rs []request
		for _, r := range g.requests(g.between(1, 30), ks) {
			if !strings.Contains(strings.ToLower(r.text), "spop") { // its outcome is random
				rs = append(rs, r)
			}
		}
		if g.chance(0.3) {
			k := g.of(ks)
			for _, x := range []Cmd{{"del", k}, {"set", k, g.bytes(g.between(1, 9000))}, {"get", k}} {
				rs = append(rs, request{encode(x), 1})
			}
		}
		if g.chance(0.3) {
			// the same again and again
			r := request{encode(Cmd{g.pick("incr", "get", "rpush"), g.of(ks), "1"}), 1}
			for i := g.between(2, 60); i > 0; i-- {
				rs = append(rs, r)
			}
		}
		large := n%20 == 3 && round == 2
		if large {
			rs = append(rs, request{encode(Cmd{"set", "large", g.bytes(g.between(1<<18, 1<<20+1<<18))}), 1}, request{encode(Cmd{"del", "large"}), 1})
		}
		if len(rs) == 0 {
			continue
		}
		reqs = append(reqs, rs...)
		var cuts []int
		if g.chance(0.4) && !large {
			cuts = g.cuts(streamLen(rs))
		}
		c.cutStream(rs, cuts, 50*time.Microsecond, nil)
		if !c.wait(0) {
			break
		}
	}
	g.cmds = nil
	g.dumpAll(ks)
	for _, x := range g.cmds {
		reqs = append(reqs, request{encode(x), 1})
		c.send(encode(x), 1)
	}
	c.wait(0)
	tr.quiet(s)
	c.hangup()
	s.Kill()

	var sent strings.Builder
	for _, r := range reqs {
		sent.WriteString(r.text)
	}
	logRuns.mu.Lock()
	logRuns.all = append(logRuns.all, [2]string{sent.String(), log.String()})
	logRuns.mu.Unlock()
	if log.Len() != sent.Len()+len(reqs) {
		return []*NetTrace{tr}, nil // the specification will tell
	}

	s2, err := startServer(nil)
	if err != nil {
		return nil, err
	}
	defer s2.Kill()
	tr2 := &NetTrace{Name: fmt.Sprintf("replayed %d", n)}
	c2, err := netDial(s2, tr2, 1)
	if err != nil {
		return nil, err
	}
	defer c2.hangup()
	rest := log.String()
	for _, r := range reqs {
		c2.send(rest[:len(r.text)], r.due)
		rest = rest[len(r.text)+1:]
		if !c2.wait(20) {
			break
		}
	}
	c2.wait(0)
	tr2.quiet(s2)
	return []*NetTrace{tr, tr2}, nil
}

// writeLogs writes the recorded texts for spec/DecTrace.tla
func writeLogs(path string) error {
	return writeJSON(path, func(w *jw) {
		for i, l := range logRuns.all {
			if i > 0 {
				w.s(",\n")
			}
			w.s(fmt.Sprintf(`[{"e":"log","d":%d,"log":%d}]`, w.t.of(l[0]), w.t.of(l[1])))
		}
	})
}
