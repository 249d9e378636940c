package main

import (
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"sync"
	"syscall"
	"time"
)

var serverBin string // the server under test

var (
	portMu   sync.Mutex
	nextPort = 10000 + os.Getpid()*131%20000
)

// allocPort finds a port below the ephemeral range that nobody uses. The same port of 127.0.0.2 is
// held meanwhile, so that two drivers never share one (the server listens with SO_REUSEPORT).
func allocPort() (int, io.Closer, error) {
	portMu.Lock()
	defer portMu.Unlock()
	for i := 0; i < 20000; i++ {
		nextPort++
		if nextPort >= 31000 {
			nextPort = 10000
		}
		lock, err := net.Listen("tcp", fmt.Sprintf("127.0.0.2:%d", nextPort))
		if err != nil {
			continue
		}
		// a process forked meanwhile would keep the listener open for a while
		syscall.ForkLock.RLock()
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", nextPort))
		if err == nil {
			_ = l.Close()
		}
		syscall.ForkLock.RUnlock()
		if err != nil {
			_ = lock.Close()
			continue
		}
		return nextPort, lock, nil
	}
	return 0, nil, fmt.Errorf("no free port")
}

// Server is a running server process
type Server struct {
	cmd  *exec.Cmd
	addr string
	lock io.Closer
	done chan struct{}
	err  error
	Log  *tail
}

// tail keeps the end of what is written
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append([]byte(nil), t.b[len(t.b)-1<<15:]...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

// startServer runs bin until it accepts connections
func startServer(stdout io.Writer, env ...string) (*Server, error) {
	return startServerBin(serverBin, stdout, env...)
}

func startServerBin(bin string, stdout io.Writer, env ...string) (s *Server, err error) {
	for i := 0; i < 3; i++ {
		if s, err = startOnce(bin, stdout, env...); err == nil {
			return
		}
	}
	return
}

func startOnce(bin string, stdout io.Writer, env ...string) (*Server, error) {
	port, lock, err := allocPort()
	if err != nil {
		return nil, err
	}
	s := &Server{addr: fmt.Sprintf("127.0.0.1:%d", port), lock: lock, done: make(chan struct{}), Log: new(tail)}
	s.cmd = exec.Command(bin, "-addr", "tcp://"+s.addr)
	s.cmd.Stdout = stdout
	s.cmd.Stderr = s.Log
	s.cmd.Env = append(os.Environ(), env...)
	if err := s.cmd.Start(); err != nil {
		_ = lock.Close()
		return nil, err
	}
	go func() {
		s.err = s.cmd.Wait()
		close(s.done)
	}()
	deadline := time.Now().Add(20 * time.Second)
	for time.Now().Before(deadline) {
		if c, err := net.DialTimeout("tcp", s.addr, time.Second); err == nil {
			_ = c.Close()
			return s, nil
		}
		if s.Exited() {
			_ = lock.Close()
			return nil, fmt.Errorf("server ended at its start: %v %s", s.err, s.Log)
		}
		time.Sleep(3 * time.Millisecond)
	}
	s.Kill()
	return nil, fmt.Errorf("server did not start: %s", s.Log)
}

func (s *Server) Exited() bool {
	select {
	case <-s.done:
		return true
	default:
		return false
	}
}

func (s *Server) Kill() {
	_ = s.cmd.Process.Kill()
	<-s.done
	_ = s.lock.Close()
}
