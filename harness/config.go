//go:build inproc

package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"testing/iotest"
	"time"

	"github.com/yusank/godis/config"
)

func init() {
	modes["config"] = configMode
	modes["confchild"] = confChild
}

// confDoc is a document with what it means, see spec/Config.tla
type confDoc struct {
	K    int // a document of the specification, or 0
	Text string
	Ok   bool
	Neg  bool
	Q    [][2]interface{}
	Read int // how it is read
}

type confEvent struct {
	E   string                 `json:"e"`
	K   int                    `json:"k"`
	Doc map[string]interface{} `json:"doc,omitempty"`
	Err bool                   `json:"err"`
	Neg bool                   `json:"neg"`
	D   []int                  `json:"d,omitempty"`

	Text string `json:"text,omitempty"`
}

func (g *G) duration() (s string, neg bool, q [][2]interface{}) {
	units := []string{"h", "m", "s", "ms", "us", "ns"}
	for i := g.Intn(6); i < 6 && len(q) < 3; i += 1 + g.Intn(3) {
		n := g.Intn(1000)
		s += strconv.Itoa(n) + units[i]
		q = append(q, [2]interface{}{n, units[i]})
	}
	if len(q) > 0 && g.chance(0.2) {
		neg, s = true, "-"+s
	} else if g.chance(0.1) {
		s = "+" + s
	}
	return
}

func (g *G) confDoc() (d confDoc) {
	d.Ok = true
	var lines []string
	pers := func() {
		lines = append(lines, "persistence: "+g.pick("aof", "rdb", "''", "5", "default_timeout", "~", "\"a: b\"", "|\n  default_timeout: 99s\n  x"))
	}
	if g.chance(0.4) {
		pers()
	}
	timeout := g.chance(0.8)
	if timeout {
		s, neg, q := g.duration()
		if g.chance(0.3) {
			s = g.pick("'", "\"") + s
			s += s[:1]
		}
		lines = append(lines, "default_timeout: "+s)
		d.Neg, d.Q = neg, q
	}
	if len(drop(lines, "persistence")) == len(lines) && g.chance(0.4) {
		pers()
	}
	if g.chance(0.3) {
		lines = append(lines, g.pick("other: 1", "timeout: 77s", "default_timeouts: 78s", "nested:\n  default_timeout: 79s", "list:\n  - default_timeout: 80s"))
	}
	if g.chance(0.3) {
		lines = append(lines, "# "+g.pick("default_timeout: 98s", strings.Repeat("x", g.Intn(9000))))
		if g.chance(0.5) {
			lines[0], lines[len(lines)-1] = lines[len(lines)-1], lines[0]
		}
	}
	if len(lines) == 0 || len(lines) == 1 && strings.HasPrefix(lines[0], "#") {
		lines = append(lines, "{}")
	}
	if g.chance(0.15) {
		lines = append([]string{"---"}, lines...)
	}
	fail := g.chance(0.4)
	multi := false
	if !fail && g.chance(0.2) { // only the first document counts
		multi = true
		lines = append(lines, "---", g.pick("default_timeout: 97s", "default_timeout: abc", "{}", "persistence: [x"))
	}
	if fail {
		d.Ok = false
		bad := g.pick("persistence: [a]", "persistence: {a: 1}", "default_timeout: later", "default_timeout: [3s]", "default_timeout: {a: 3s}", "default_timeout: 3 seconds",
			"}", "x: [1", "\tx: 1", "x: 'a", "- a", "x: *none", "default_timeout: true")
		switch {
		case strings.HasPrefix(bad, "persistence"):
			lines = drop(lines, "persistence")
		case strings.HasPrefix(bad, "default_timeout"):
			lines = drop(lines, "default_timeout")
		}
		k := g.Intn(len(lines) + 1)
		if len(lines) > 0 && lines[0] == "---" && k == 0 {
			k = 1
		}
		// a block must not be divided
		lines = append(lines[:k:k], append([]string{bad}, lines[k:]...)...)
		if len(drop(lines, "{}")) != len(lines) {
			lines = []string{bad}
		}
	}
	eol := "\n"
	if g.chance(0.1) {
		eol = "\r\n"
	}
	d.Text = strings.Join(lines, eol)
	if g.chance(0.8) {
		d.Text += eol
	}
	d.Read = g.Intn(4)
	if d.Read == 3 && (multi || g.chance(0.6)) {
		d.Read = 0
	}
	if d.Read == 3 {
		d.Ok = false
	}
	return d
}

func drop(lines []string, prefix string) (r []string) {
	for _, l := range lines {
		if !strings.HasPrefix(l, prefix) {
			r = append(r, l)
		}
	}
	return
}

func (d confDoc) reader() io.Reader {
	r := io.Reader(strings.NewReader(d.Text))
	switch d.Read {
	case 1:
		r = iotest.OneByteReader(r)
	case 2:
		r = iotest.DataErrReader(r)
	case 3:
		r = io.MultiReader(r, iotest.ErrReader(errors.New("broken")))
	}
	return r
}

func confRun(docs []confDoc, g *G) (ev []confEvent) {
	get := func() {
		e := confEvent{E: "get"}
		defer func() {
			if r := recover(); r != nil {
				ev = append(ev, confEvent{E: "panic"})
			}
		}()
		s := strconv.FormatInt(int64(config.GetDefaultTimeout()), 10)
		if s[0] == '-' {
			e.Neg, s = true, s[1:]
		}
		for _, c := range s {
			e.D = append(e.D, int(c-'0'))
		}
		ev = append(ev, e)
	}
	if g.chance(0.7) {
		get()
	}
	for _, d := range docs {
		e := confEvent{E: "load", K: d.K, Text: d.Text}
		if d.K == 0 {
			q := d.Q
			if q == nil {
				q = [][2]interface{}{}
			}
			e.Doc = map[string]interface{}{"ok": d.Ok, "neg": d.Neg, "q": q}
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					e.E = "panic"
				}
			}()
			e.Err = config.InitConfig(d.reader()) != nil
		}()
		ev = append(ev, e)
		if g.chance(0.85) {
			get()
		}
	}
	get()
	return
}

// confChild is one history, for the configuration can't be unloaded
func confChild() error {
	var docs []confDoc
	if err := json.NewDecoder(os.Stdin).Decode(&docs); err != nil {
		return err
	}
	return json.NewEncoder(os.Stdout).Encode(confRun(docs, newG(*seed)))
}

func configMode() error {
	g := newG(*seed)
	var hists [][]confDoc
	if *in != "" {
		f, err := os.Open(*in)
		if err != nil {
			return err
		}
		defer f.Close()
		for d := json.NewDecoder(f); ; {
			var h []confDoc
			if err := d.Decode(&h); err != nil {
				break
			}
			for i := range h {
				h[i].Read = g.Intn(3)
			}
			hists = append(hists, h)
		}
	}
	for i := 0; i < *count; i++ {
		var h []confDoc
		for n := g.between(1, 12); n > 0; n-- {
			h = append(h, g.confDoc())
		}
		hists = append(hists, h)
	}
	lines := make([]string, len(hists))
	errs := make([]error, *jobs)
	var wg sync.WaitGroup
	for j := 0; j < *jobs; j++ {
		wg.Add(1)
		go func(j int) {
			defer wg.Done()
			for k := j; k < len(hists) && errs[j] == nil; k += *jobs {
				b, _ := json.Marshal(hists[k])
				cmd := exec.Command(os.Args[0], "confchild", "-seed", strconv.FormatInt(*seed*1000003+int64(k), 10))
				cmd.Stdin = strings.NewReader(string(b))
				kill := time.AfterFunc(100*time.Second, func() { _ = cmd.Process.Kill() })
				o, err := cmd.Output()
				kill.Stop()
				lines[k] = strings.SplitN(string(o), "\n", 2)[0]
				if ee := new(exec.ExitError); errors.As(err, &ee) { // the child died or did not end
					fmt.Fprintf(os.Stderr, "history %d: %v %s\n", k, err, ee.Stderr)
					lines[k] = `[{"e":"dead"}]`
				} else if err != nil {
					errs[j] = fmt.Errorf("history %d: %v", k, err)
				}
			}
		}(j)
	}
	wg.Wait()
	if err := errors.Join(errs...); err != nil {
		return err
	}
	all := strings.Join(lines, ",\n")
	report = map[string]interface{}{"traces": len(lines), "events": strings.Count(all, `"e":`), "failing_loads": strings.Count(all, `"err":true`)}
	return os.WriteFile(*out, []byte(`{"t":[`+all+"]}\n"), 0o644)
}
