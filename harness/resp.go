package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"sync/atomic"
	"time"
)

// Reply is one RESP value, kinds as in spec/Store.tla: '+', '-', 'i', 'b', 'n', 'a',
// or 'x' if there was none
type Reply struct {
	Kind byte
	Str  string
	Arr  []Reply
}

var NoReply = Reply{Kind: 'x'}

func (r Reply) String() string {
	switch r.Kind {
	case 'n':
		return "(nil)"
	case 'x':
		return "(no reply: " + r.Str + ")"
	case 'a':
		var b bytes.Buffer
		b.WriteByte('[')
		for i, x := range r.Arr {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(x.String())
		}
		b.WriteByte(']')
		return b.String()
	}
	return fmt.Sprintf("%c%q", r.Kind, r.Str)
}

var errRESP = errors.New("not a RESP value")

func readLine(r *bufio.Reader) (string, error) {
	s, err := r.ReadString('\n')
	if err != nil {
		return s, err
	}
	if len(s) < 2 || s[len(s)-2] != '\r' {
		return s, errRESP
	}
	return s[:len(s)-2], nil
}

func length(s string) (int, error) {
	if s == "-1" {
		return -1, nil
	}
	n, err := strconv.ParseUint(s, 10, 31)
	if err != nil || strconv.FormatUint(n, 10) != s {
		return 0, errRESP
	}
	return int(n), nil
}

func readReply(r *bufio.Reader) (Reply, error) {
	l, err := readLine(r)
	if err != nil {
		return NoReply, err
	}
	if l == "" {
		return NoReply, errRESP
	}
	switch l[0] {
	case '+', '-':
		return Reply{Kind: l[0], Str: l[1:]}, nil
	case ':':
		return Reply{Kind: 'i', Str: l[1:]}, nil
	case '$':
		n, err := length(l[1:])
		if err != nil {
			return NoReply, err
		}
		if n < 0 {
			return Reply{Kind: 'n'}, nil
		}
		buf := make([]byte, n+2)
		if _, err := io.ReadFull(r, buf); err != nil {
			return NoReply, err
		}
		if buf[n] != '\r' || buf[n+1] != '\n' {
			return NoReply, errRESP
		}
		return Reply{Kind: 'b', Str: string(buf[:n])}, nil
	case '*':
		n, err := length(l[1:])
		if err != nil || n < 0 {
			return NoReply, errRESP
		}
		a := Reply{Kind: 'a'}
		for i := 0; i < n; i++ {
			x, err := readReply(r)
			if err != nil {
				return NoReply, err
			}
			a.Arr = append(a.Arr, x)
		}
		return a, nil
	}
	return NoReply, errRESP
}

// Cmd is a command line
type Cmd []string

func (c Cmd) String() string { return fmt.Sprintf("%.300q", []string(c)) }

func (c Cmd) encode(b *bytes.Buffer) {
	fmt.Fprintf(b, "*%d\r\n", len(c))
	for _, a := range c {
		fmt.Fprintf(b, "$%d\r\n", len(a))
		b.WriteString(a)
		b.WriteString("\r\n")
	}
}

// Client is a connection
type Client struct {
	c net.Conn
	r *bufio.Reader
}

var hangs int32

// hung notes that a reply did not come in time
func hung(err error) {
	if e, ok := err.(net.Error); ok && e.Timeout() {
		atomic.AddInt32(&hangs, 1)
	}
}

// patience is d, or less once the run is broken anyway
func patience(d time.Duration) time.Duration {
	switch n := atomic.LoadInt32(&hangs); {
	case n >= 40:
		return d / 2000
	case n >= 6:
		return d / 20
	}
	return d
}

const replyTimeout = 40 * time.Second

func dial(addr string) (*Client, error) {
	c, err := net.DialTimeout("tcp", addr, 10*time.Second)
	if err != nil {
		return nil, err
	}
	return &Client{c: c, r: bufio.NewReaderSize(c, 1<<16)}, nil
}

func (c *Client) Close() { _ = c.c.Close() }

func (c *Client) Do(cmd Cmd) Reply { return c.Pipe([]Cmd{cmd})[0] }

// Pipe sends all commands at once and reads the replies, after a failure the remaining ones are NoReply
func (c *Client) Pipe(cmds []Cmd) []Reply {
	var b bytes.Buffer
	for _, x := range cmds {
		x.encode(&b)
	}
	out := make([]Reply, 0, len(cmds))
	fail := func(err error) []Reply {
		hung(err)
		for len(out) < len(cmds) {
			out = append(out, Reply{Kind: 'x', Str: err.Error()})
		}
		return out
	}
	_ = c.c.SetDeadline(time.Now().Add(patience(replyTimeout)))
	werr := make(chan error, 1)
	go func() {
		_, err := c.c.Write(b.Bytes())
		werr <- err
	}()
	for range cmds {
		r, err := readReply(c.r)
		if err != nil {
			return fail(err)
		}
		out = append(out, r)
	}
	if err := <-werr; err != nil {
		return fail(err)
	}
	return out
}
