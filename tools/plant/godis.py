"""Builds the server of the working directory into a scratch directory, runs it and talks to it."""
import os
import shutil
import socket
import subprocess
import sys
import tempfile
import threading
import time

ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off",
           GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", CGO_ENABLED="0")
if os.path.isdir("/opt/veriftools/go1.27.3/bin"):
    ENV["PATH"] = "/opt/veriftools/go1.27.3/bin:" + ENV["PATH"]


class Err(str):
    pass


class Client:
    def __init__(self, port):
        self.s = socket.create_connection(("127.0.0.1", port), timeout=30)
        self.f = self.s.makefile("rb")

    def send(self, *a):
        self.s.sendall(enc(*a))

    def raw(self, b):
        self.s.sendall(b)

    def read(self):
        line = self.f.readline()
        if not line.endswith(b"\r\n"):
            raise EOFError("connection lost: %r" % line)
        t, v = line[:1], line[1:-2]
        if t == b"+":
            return v.decode()
        if t == b"-":
            return Err(v.decode())
        if t == b":":
            return int(v)
        if t == b"$":
            if v == b"-1":
                return None
            b = self.f.read(int(v) + 2)
            if not b.endswith(b"\r\n"):
                raise EOFError("bad bulk")
            return b[:-2].decode("latin1")
        if t == b"*":
            return [self.read() for _ in range(int(v))]
        raise ValueError("bad reply %r" % line)

    def __call__(self, *a):
        self.send(*a)
        return self.read()


def enc(*a):
    out = b"*%d\r\n" % len(a)
    for x in a:
        b = x if isinstance(x, bytes) else str(x).encode("latin1")
        out += b"$%d\r\n%s\r\n" % (len(b), b)
    return out


class Server:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="demo-")
        self.bin = os.path.join(self.dir, "srv")
        r = subprocess.run(["go", "build", "-o", self.bin, "./cmd/server"], env=ENV)
        if r.returncode:
            sys.exit("does not build")
        with socket.socket() as s:
            s.bind(("127.0.0.1", 0))
            self.port = s.getsockname()[1]
        self.out = open(os.path.join(self.dir, "out"), "wb")
        self.p = subprocess.Popen([self.bin, "-addr", "tcp://127.0.0.1:%d" % self.port],
                                  stdout=self.out, stderr=subprocess.DEVNULL, cwd=self.dir)
        for _ in range(100):
            try:
                self.client().s.close()
                break
            except OSError:
                time.sleep(0.1)

    def client(self):
        return Client(self.port)

    def alive(self):
        return self.p.poll() is None

    def output(self):
        with open(os.path.join(self.dir, "out"), "rb") as f:
            return f.read()

    def close(self):
        self.p.kill()
        self.p.wait()
        self.out.close()
        shutil.rmtree(self.dir)


def expect(what, got, want):
    if got != want:
        print("FAIL %s: got %r, want %r" % (what, got, want))
        raise SystemExit(1)


def run(f):
    s = Server()
    try:
        f(s)
        if not s.alive():
            print("FAIL the server died")
            sys.exit(1)
    except (EOFError, OSError, ValueError) as e:
        print("FAIL", e)
        sys.exit(1)
    finally:
        s.close()
    print("ok")
