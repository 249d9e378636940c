package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"sync"
	"time"
)

func init() {
	modes["cmds"] = cmdsMode
	modes["scripts"] = scriptsMode
}

// runHist executes a history on a server of its own
func runHist(name string, cmds []Cmd) (Hist, error) {
	h := Hist{Name: name}
	s, err := startServer(nil)
	if err != nil {
		return h, err
	}
	defer s.Kill()
	c, err := dial(s.addr)
	if err != nil {
		return h, fmt.Errorf("%v, server exited: %v, log: %s", err, s.Exited(), s.Log)
	}
	defer c.Close()

	for i := 0; i < len(cmds); {
		j, size := i, 0
		for j < len(cmds) && j-i < *batch && size < *batchSize {
			for _, a := range cmds[j] {
				size += len(a) + 16
			}
			j++
		}
		dead := false
		for k, r := range c.Pipe(cmds[i:j]) {
			h.Ev = append(h.Ev, Event{cmds[i+k], r})
			if r.Kind == 'x' {
				dead = true
				break
			}
		}
		if dead {
			time.Sleep(50 * time.Millisecond)
			fmt.Fprintf(os.Stderr, "%s: no reply to command %d %s: %s, server exited: %v, log: %s\n", name, len(h.Ev), h.Ev[len(h.Ev)-1].Args,
				h.Ev[len(h.Ev)-1].Reply, s.Exited(), s.Log)
			break
		}
		i = j
	}
	return h, nil
}

func runAll(names []string, hists [][]Cmd) ([]Hist, error) {
	res := make([]Hist, len(hists))
	errs := make([]error, len(hists))
	var wg sync.WaitGroup
	next := make(chan int)
	for w := 0; w < *jobs; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				res[i], errs[i] = runHist(names[i], hists[i])
			}
		}()
	}
	for i := range hists {
		next <- i
	}
	close(next)
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return nil, e
		}
	}
	return res, nil
}

func countEvents(hs []Hist) {
	n, errs := 0, 0
	seen := map[string]bool{}
	for _, h := range hs {
		n += len(h.Ev)
		for _, e := range h.Ev {
			if e.Reply.Kind == '-' {
				errs++
			}
			seen[fmt.Sprint(e.Args, e.Reply)] = true
		}
	}
	report["events"] = n
	report["distinct"] = len(seen)
	report["errors"] = errs
	report["histories"] = len(hs)
}

func writeNames(path string, hs []Hist) error {
	var names []string
	for _, h := range hs {
		names = append(names, h.Name)
	}
	b, _ := json.Marshal(names)
	return os.WriteFile(path+".names", b, 0o644)
}

func cmdsMode() error {
	p := profiles[*prof]
	if p == nil {
		return fmt.Errorf("no profile %q", *prof)
	}
	var names []string
	var hists [][]Cmd
	for i := 0; i < *count; i++ {
		g := newG(*seed*1000003 + int64(i))
		p(g, i)
		hists = append(hists, g.cmds)
		names = append(names, fmt.Sprintf("%s seed %d history %d", *prof, *seed, i))
	}
	hs, err := runAll(names, hists)
	if err != nil {
		return err
	}
	countEvents(hs)
	return writeHists(*out, hs)
}

// scriptsMode runs command sequences read as JSON lines [[["set","k","v"],...], ...], each line is one history
func scriptsMode() error {
	f, err := os.Open(*in)
	if err != nil {
		return err
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<28)
	var names []string
	var hists [][]Cmd
	for sc.Scan() {
		var h []Cmd
		if err := json.Unmarshal(sc.Bytes(), &h); err != nil {
			return err
		}
		if *latin {
			for _, c := range h {
				for i := range c {
					b := make([]byte, 0, len(c[i]))
					for _, x := range c[i] {
						b = append(b, byte(x))
					}
					c[i] = string(b)
				}
			}
		}
		hists = append(hists, h)
		names = append(names, fmt.Sprintf("%s line %d", *in, len(hists)))
	}
	if err := sc.Err(); err != nil {
		return err
	}
	hs, err := runAll(names, hists)
	if err != nil {
		return err
	}
	countEvents(hs)
	return writeHists(*out, hs)
}
