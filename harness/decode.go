//go:build inproc

package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"strings"
	"time"

	"github.com/yusank/godis/protocol"
)

func init() { modes["decode"] = decodeMode }

// chunks is a reader that returns the stream in segments
type chunks struct {
	g   *G
	s   string
	max int
}

func (c *chunks) Read(p []byte) (int, error) {
	if len(c.s) == 0 {
		return 0, io.EOF
	}
	n := c.g.between(1, c.max)
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], c.s)
	c.s = c.s[n:]
	return n, nil
}

type decoded struct {
	org    string
	el     []string
	again  []string
	again2 string
}

type decodeRun struct {
	data string
	recs []decoded
	fin  string
}

func finish(err error) string {
	switch {
	case errors.Is(err, io.ErrUnexpectedEOF):
		return "cut"
	case errors.Is(err, io.EOF):
		return "eof"
	}
	return "err"
}

// decode is decode1, which may panic or never end
func (g *G) decode(s string, max int) decodeRun {
	ch := make(chan decodeRun, 1)
	go func() {
		r := decodeRun{data: s}
		defer func() {
			if x := recover(); x != nil {
				fmt.Fprintln(os.Stderr, "panic:", x)
				r.fin = "panic"
			}
			ch <- r
		}()
		g.decode1(&r, s, max)
	}()
	select {
	case r := <-ch:
		return r
	case <-time.After(60 * time.Second):
		endless = true
		return decodeRun{data: s, fin: "hang"}
	}
}

var endless bool // a decoding did not end

func (g *G) decode1(r *decodeRun, s string, max int) {
	size := g.of([]string{"16", "17", "64", "4096"})
	n := 0
	_, _ = fmt.Sscan(size, &n)
	rd := bufio.NewReaderSize(&chunks{g: g, s: s, max: max}, n)
	for {
		rec, err := protocol.DecodeFromReader(rd)
		if err != nil {
			r.fin = finish(err)
			return
		}
		d := decoded{org: rec.OrgStr, el: rec.Elements}
		// the recorded text, decoded again and followed by something else
		again, err := protocol.DecodeFromReader(bufio.NewReader(strings.NewReader(rec.OrgStr + "+more\r\n")))
		if err != nil {
			d.again = []string{"error", err.Error()}
		} else {
			d.again, d.again2 = again.Elements, again.OrgStr
		}
		r.recs = append(r.recs, d)
		if len(r.recs) > 100000 {
			r.fin = "endless"
			return
		}
	}
}

// stream is a byte stream: requests, maybe cut off or malformed at the end
func (g *G) stream(i int) string {
	var b strings.Builder
	for _, r := range g.requests(g.Intn(6), names("k", 3)) {
		b.WriteString(r.text)
	}
	// arguments which look like protocol
	if g.chance(0.5) {
		c := Cmd{g.pick("set", "SET", "foo", "")}
		for j := g.Intn(6); j > 0; j-- {
			c = append(c, g.pick("", "\r\n", "\n", "\r", "$3\r\nabc\r\n", "*1\r\n", "PING\r\n", "\x00", "a\r\nb", "-1", "$-1\r\n", g.bytes(g.Intn(40)), strings.Repeat("x", g.Intn(5000))))
		}
		if g.chance(0.6) {
			b.WriteString(g.encodeOdd(c))
		} else {
			b.WriteString(encode(c))
		}
	}
	if i%60 == 7 { // large arguments, many arguments
		c := Cmd{"x", g.bytes(g.near(4096, 8192, 16384, 32768, 65536, g.between(1, 100000))), ""}
		if g.chance(0.4) {
			c = append(Cmd{"mset"}, g.manyOf(oddVals, g.near(255, 256, 1000, 1024, 2048))...)
		}
		b.WriteString(encode(c))
	}
	if g.chance(0.1) { // deep and empty nesting
		for j := g.between(1, 200); j > 0; j-- {
			b.WriteString(g.pick("*1\r\n", "*1\r\n", "*2\r\n*0\r\n", "*3\r\n*-1\r\n$0\r\n\r\n"))
		}
		b.WriteString("$1\r\nz\r\n")
	}
	s := b.String()
	switch g.Intn(6) {
	case 0:
		s = s[:g.Intn(len(s)+1)]
	case 1:
		s += malformed[i%len(malformed)] + g.pick("", "*1\r\n$4\r\nPING\r\n")
	case 2:
		t := []byte(s)
		for j := g.between(1, 3); j > 0 && len(t) > 0; j-- {
			switch g.Intn(3) {
			case 0:
				t[g.Intn(len(t))] = byte(g.Intn(256))
			case 1:
				k := g.Intn(len(t))
				t = append(t[:k], t[k+1:]...)
			case 2:
				t[g.Intn(len(t))] = g.pick("\r", "\n", "*", "$", "1", "0", "-")[0]
			}
		}
		s = string(t)
	case 3:
		if g.chance(0.3) {
			s += g.bytes(g.Intn(60))
		}
	}
	return s
}

func decodeMode() error {
	log.SetOutput(io.Discard)
	var runs []decodeRun
	recs := 0
	for i := 0; i < *count && !endless; i++ {
		g := newG(*seed*1000003 + int64(i))
		s := g.stream(i)
		for _, max := range []int{1, 7, 1 << 20} {
			if r := g.decode(s, max); max == 1 || len(s) < 20000 && g.chance(0.4) {
				runs = append(runs, r)
				recs += len(r.recs)
			}
		}
		if i%20 == 0 && len(s) < 400 { // every prefix
			for k := 0; k <= len(s) && !endless; k++ {
				runs = append(runs, g.decode(s[:k], 9))
			}
		}
	}
	report["traces"] = len(runs)
	report["requests"] = recs
	return writeJSON(*out, func(w *jw) {
		for i, r := range runs {
			if i > 0 {
				w.s(",\n")
			}
			w.s(fmt.Sprintf(`[{"e":"decode","d":%d,"fin":%q,"recs":[`, w.t.of(r.data), r.fin))
			for j, d := range r.recs {
				if j > 0 {
					w.s(",")
				}
				w.s(fmt.Sprintf(`{"org":%d,"org2":%d,"el":`, w.t.of(d.org), w.t.of(d.again2)))
				w.ids(d.el)
				w.s(`,"again":`)
				w.ids(d.again)
				w.s("}")
			}
			w.s("]}]")
		}
	})
}
