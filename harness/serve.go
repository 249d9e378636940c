//go:build inproc

package main

import (
	"bufio"
	"bytes"
	"context"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/signal"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/panjf2000/gnet/pkg/pool/goroutine"

	"github.com/yusank/godis/debug"
	"github.com/yusank/godis/protocol"
	"github.com/yusank/godis/redis"
	v2 "github.com/yusank/godis/server/v2"
)

func init() {
	if os.Getenv("DRV_SERVE") != "" {
		modes["-addr"] = serveMode
	} else {
		modes["-addr"] = func() error { flag.Usage(); return nil }
	}
}

// delays makes a tracer that now and then lets others run
func delays(seed int64) func(string, interface{}) {
	var mu sync.Mutex
	r := rand.New(rand.NewSource(seed))
	return func(point string, v interface{}) {
		mu.Lock()
		x, y := r.Intn(100), r.Intn(60)
		mu.Unlock()
		switch {
		case x < 10:
			time.Sleep(time.Duration(y) * time.Microsecond)
		case x < 40:
			for ; y > 0; y-- {
				runtime.Gosched()
			}
		}
	}
}

// serveMode is the server of cmd/server which pauses at trace points
func serveMode() error {
	seed, _ := strconv.ParseInt(os.Getenv("DRV_SEED"), 10, 64)
	debug.Tracer = delays(seed)
	p := goroutine.Default()
	defer p.Release()
	srv := v2.NewServer(p)
	if os.Getenv("DRV_DUMP") == "" {
		return srv.Start(os.Args[2])
	}

	// stops when told to, and then shows the store
	c := make(chan os.Signal, 10)
	signal.Notify(c, syscall.SIGTERM, syscall.SIGINT)
	stopped := make(chan struct{})
	go func() {
		<-c
		srv.Stop()
		close(stopped)
	}()
	if err := srv.Start(os.Args[2]); err != nil {
		return err
	}
	<-stopped
	time.Sleep(2 * time.Millisecond) // what runs now should not
	debug.Tracer = func(string, interface{}) {}
	fmt.Print("\x00dump\n")
	show := func(a ...string) string {
		var b bytes.Buffer
		Cmd(a).encode(&b)
		r := (<-redis.NewCommandFromReceive(context.Background(), &protocol.Receive{Elements: a}).ExecuteAsync()).Encode()
		fmt.Printf("%s\x01%s\x00", b.String(), r)
		return string(r)
	}
	rd := bufio.NewReader(strings.NewReader(show("keys", "*")))
	keys, err := readReply(rd)
	if err != nil {
		return err
	}
	for _, k := range keys.Arr {
		if strings.HasPrefix(k.Str, "l") {
			show("lrange", k.Str, "0", "-1")
		} else {
			show("get", k.Str)
		}
	}
	os.Exit(0)
	return nil
}
