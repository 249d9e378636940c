"""What the checks share: building, running the driver, running TLC, evidence and verdicts."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
REPO = "/repo"
TLA = "/opt/veriftools/tla"
CP = TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar"
KNOWN = os.path.join(HERE, "known_findings.txt")


class Infra(Exception):
    """The check itself could not run."""


def go_env():
    env = dict(os.environ)
    for k in ("GOROOT", "GOWORK", "GOENV", "GOOS", "GOARCH"):
        env.pop(k, None)
    env.update(
        HOME="/root",
        PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        GOTOOLCHAIN="local",
        GOFLAGS="-mod=mod",
        GOPROXY="off",
        GOPATH="/root/go",
        GOMODCACHE="/root/go/pkg/mod",
        GOCACHE="/root/.cache/go-build",
        CGO_ENABLED="0",
    )
    return env


class Broken(Exception):
    """The code under test ended where it never should."""


class Enough(Exception):
    """Violations are known and a lot of time is gone."""


class Check:
    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random(self.seed * 7919 + sum(map(ord, prop)))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="godis-%s-" % prop)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.assumptions, self.parts = [], [], [], []
        self.violations, self.known = [], []
        self.nreplay = 0

    thorough = property(lambda self: self.tier == "thorough")

    def path(self, *p):
        return os.path.join(self.work, *p)

    def say(self, *a):
        print("[%s %5.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---- building -------------------------------------------------------
    def run(self, cmd, timeout=600, **kw):
        try:
            return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
        except subprocess.TimeoutExpired:
            raise Infra("%s: no end after %d s" % (cmd[:3], timeout))

    def go_build(self, out, pkg, cwd, tags="verif", timeout=600):
        r = self.run(["go", "build", "-tags", tags, "-o", out, pkg], cwd=cwd, env=go_env(), timeout=timeout)
        if r.returncode:
            raise Infra("go build %s failed:\n%s" % (pkg, r.stderr.decode(errors="replace")))
        return out

    def build(self):
        """the driver (linked with /repo) and the server, from the current tree"""
        h = self.path("harness")
        shutil.copytree(os.path.join(HERE, "harness"), h)
        self.drv = self.go_build(self.path("drv"), ".", h)
        self.srv = self.go_build(self.path("srv"), "./cmd/server", REPO)

    def build_inproc(self):
        """the driver with the parts that call godis packages directly"""
        if not getattr(self, "drvi", None):
            self.drvi = self.go_build(self.path("drvi"), ".", self.path("harness"), tags="verif,inproc")

    def enough(self):
        if self.violations and time.time() - self.t0 > 240:
            raise Enough

    def drive(self, mode, out, timeout=600, binary=None, **opts):
        self.enough()
        cmd = [binary or self.drv, mode, "-bin", self.srv, "-out", out, "-seed", str(opts.pop("seed", self.seed))]
        for k, v in opts.items():
            cmd += ["-" + k, str(v)]
        r = self.run(cmd, timeout=timeout, env=go_env(), cwd=self.work)
        err = r.stderr.decode(errors="replace")
        if r.returncode:
            if "server ended at its start" in err or (re.search("^(panic|fatal error): ", err, re.M) and "github.com/yusank/godis/" in err):
                raise Broken("driver %s: %s" % (cmd[1:], err[:6000]))
            raise Infra("driver %s failed (%d):\n%s" % (cmd[1:], r.returncode, err[-3000:]))
        if err.strip():
            self.say("driver:", err.strip()[:1500])
        return json.loads(r.stdout.decode().strip().splitlines()[-1])

    # ---- TLC ------------------------------------------------------------
    def tlc(self, module, env=None, workers=8, timeout=800, heap="6g", cfg=None, expect_error=False):
        """runs TLC, returns (output, generated, distinct)"""
        self.enough()
        md = tempfile.mkdtemp(dir=self.work)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Xss256m", "-Xmx" + heap, "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", md,
               "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg", module + ".tla"]
        out_path = os.path.join(md, "out")
        with open(out_path, "wb") as f:
            try:
                r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise Infra("TLC %s: no end after %d s" % (module, timeout))
        out = open(out_path, errors="replace").read()
        shutil.rmtree(md, ignore_errors=True)
        m = re.findall(r"^(\d+) states generated, (\d+) distinct", out, re.M)
        gen, dis = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        bad = r.returncode != 0 or "Error:" in out
        if bad and not expect_error:
            raise Infra("TLC %s failed (%d):\n%s" % (module, r.returncode, out[-4000:]))
        self.states += dis
        self.transitions += gen
        return out, gen, dis

    def validate(self, module, trace, n, env=None, **kw):
        """validates the traces of a file, returns {trace: event} of the rejected ones"""
        e = {"TRACE": trace}
        e.update(env or {})
        out, gen, dis = self.tlc(module, e, **kw)
        acc = set(map(int, re.findall(r'<<"ACCEPT", (\d+)>>', out)))
        rej = {}
        for t, i in re.findall(r'<<"REJECT", (\d+), (-?\d+)', out):
            rej[int(t)] = max(int(i), rej.get(int(t), -1))
        for t in acc:
            rej.pop(t, None)
        missing = set(range(1, n + 1)) - acc - set(rej)
        if missing:
            raise Infra("TLC %s gave no verdict on traces %s" % (module, sorted(missing)[:5]))
        self.traces += len(acc)
        self.last_output = out
        return rej

    # ---- verdicts -------------------------------------------------------
    def replay_path(self, suffix=".txt"):
        d = os.path.join(HERE, "replays", self.prop)
        if self.nreplay == 0:
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        self.nreplay += 1
        return os.path.join(d, "%d%s" % (self.nreplay, suffix))

    def violation(self, text, data=None):
        """records a violation with its replay file"""
        p = self.replay_path()
        with open(p, "w") as f:
            f.write(text + "\n")
        if data is not None:
            with open(p[:-4] + ".json", "w") as f:
                json.dump(data, f)
        self.violations.append(p)
        self.say("violation:", text[:1500])

    def known_finding(self, what):
        self.known.append(what)

    def listed(self):
        """the known findings of this property: {name: description}"""
        res = {}
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) name=(\S+) (.*)", line)
            if m and m.group(1) == self.prop:
                res[m.group(2)] = m.group(3)
        return res

    def finish(self, extra=None):
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "events_validated": self.events,
            "samples": self.samples[:6] or ["none"],
            "parts": self.parts,
        }
        cov.update(extra or {})
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for p in self.violations[:5]:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        shutil.rmtree(self.work, ignore_errors=True)
        self.say("%s: %d states, %d traces, %d events" % ("BROKEN" if self.violations else "held", self.states, self.traces, self.events))
        return 1 if self.violations else 0


# ---- command histories ------------------------------------------------------

def rep_text(s, r):
    if r[0] == "a":
        return "[" + ", ".join(rep_text(s, x) for x in r[1]) + "]"
    if len(r) == 1:
        return {"n": "nil", "x": "NO REPLY"}[r[0]]
    return r[0] + repr(s[r[1] - 1])[1:]


def show(d, t, i, ctx=None):
    s = [bytes(x) for x in d["s"]]
    lines = []
    for j, e in enumerate(d["t"][t - 1][:i], 1):
        if ctx is None or j > i - ctx:
            lines.append("%4d %s -> %s" % (j, " ".join(repr(s[x - 1])[1:] for x in e["a"])[:2000], rep_text(s, e["r"])[:2000]))
    return lines


def judge_hists(c, trace, n, what, accept=None):
    """validates command histories; a missing reply has to show again to count"""
    rej = c.validate("CmdTrace", trace, n)
    if not rej and c.samples:
        return
    d = json.load(open(trace))
    if len(c.samples) < 6 and d["t"]:
        t = c.rng.randrange(len(d["t"])) + 1
        c.samples.append({"history": what, "events": show(d, t, min(len(d["t"][t - 1]), 12))})
    for t, i in sorted(rej.items())[:20]:
        if accept and accept(t, i):
            continue
        ev = d["t"][t - 1]
        if ev[i - 1]["r"][0] == "x":
            again = [[list(bytes(d["s"][x - 1])) for x in e["a"]] for e in ev]
            if not confirm(c, again):
                c.notes.append("a reply was missing once, not again")
                continue
        text = "\n".join(["%s: the reply to command %d is not one the specification allows" % (what, i)] + show(d, t, i))
        c.violation(text, {"commands": [[bytes(d["s"][x - 1]).decode("latin-1") for x in e["a"]] for e in ev[:i]]})


def confirm(c, cmds):
    p = c.path("again.jsonl")
    with open(p, "w") as f:
        for _ in range(3):
            f.write(json.dumps([[bytes(a).decode("latin-1") for a in e] for e in cmds]) + "\n")
    out = c.path("again.json")
    c.drive("scripts", out, **{"in": p, "latin": 1})
    return bool(c.validate("CmdTrace", out, 3))


def random_hists(c, profile, n, seed=0, **kw):
    out = c.path("cmds-%s-%d.json" % (profile, seed))
    r = c.drive("cmds", out, profile=profile, n=n, seed=c.seed * 100 + seed, **kw)
    c.events += r["events"]
    c.parts.append({"part": "random histories " + profile, "histories": r["histories"], "events": r["events"],
                    "distinct_command_reply_pairs": r["distinct"], "refused": r["errors"]})
    judge_hists(c, out, n, "random history (profile %s)" % profile)
    c.say("random histories:", r)
    os.remove(out)


DUMPS = {
    "string": ["mget a b c", "type a", "exists a b c"],
    "list": ["lrange a 0 -1", "llen a", "lindex a 0", "lindex a -1", "type a"],
    "set": ["smembers a", "scard a", "smembers b", "scard b", "smembers c", "exists a b c"],
    "algebra": ["smembers a", "smembers b", "smembers c", "scard a", "scard c", "type c", "type d", "smembers d"],
    "hash": ["hgetall a", "hlen a", "hkeys a", "hvals a", "type a"],
    "zset": ["zrange a 0 -1 withscores", "zcard a", "zrevrange a 0 -1 withscores", "zcount a -inf +inf", "zrank a x", "zscore a y", "type a"],
    "all": ["keys *", "mget a b c d e f"] + [v % k for k in "abcd" for v in
            ("type %s", "lrange %s 0 -1", "smembers %s", "hgetall %s", "zrange %s 0 -1 withscores")],
    "few": ["keys *", "mget a b"] + [v % k for k in "ab" for v in
            ("type %s", "lrange %s 0 -1", "smembers %s", "hgetall %s", "zrange %s 0 -1 withscores")],
}


def generated(c, alpha, depth, window, dump, limit):
    """TLC explores the universe `alpha` and checks the laws on it; the scripts it prints are run on the server"""
    out, gen, dis = c.tlc("Gen", {"ALPHA": alpha, "DEPTH": depth, "WINDOW": window})
    scripts = sorted(set(re.findall(r'<<"SCRIPT", "\[([\d,]*)\]">>', out)))
    m = re.search(r'<<"LINES", (".*")>>', out)
    lines = json.loads(json.loads(m.group(1)))
    total = len(scripts)
    if total > limit:
        scripts = c.rng.sample(scripts, limit)
    p = c.path("scripts.jsonl")
    hists, cur = 0, []
    with open(p, "w") as f:
        for n, s in enumerate(scripts, 1):
            cur += [lines[int(i) - 1].split(" ") for i in s.split(",")]
            cur += [x.split(" ") for x in DUMPS[dump]]
            cur.append("del a b c d e f g".split())
            if len(cur) > 700 or n == len(scripts):
                f.write(json.dumps(cur) + "\n")
                hists, cur = hists + 1, []
    trace = c.path("gen.json")
    r = c.drive("scripts", trace, **{"in": p})
    c.events += r["events"]
    c.parts.append({"part": "universe %s, depth %d" % (alpha, depth), "specification_states": dis, "specification_transitions": gen,
                    "scripts": total, "scripts_replayed": len(scripts), "events": r["events"], "distinct_command_reply_pairs": r["distinct"]})
    judge_hists(c, trace, hists, "specification behaviour (universe %s)" % alpha)
    c.say("generated:", c.parts[-1])
    os.remove(trace)


def globs(c, depth, laws):
    """all small patterns of spec/GlobGen.tla, with all its keys in the store"""
    out, gen, dis = c.tlc("GlobGen", {"DEPTH": depth, "LAWS": laws})
    pats = sorted(set(re.findall(r'<<"PATTERN", "\[([\d,]*)\]">>', out)))
    keys = json.loads(json.loads(re.search(r'<<\s*"KEYS",\s*(".*")\s*>>', out).group(1)))
    latin = lambda b: bytes(b).decode("latin-1")
    fill = ["mset"]
    for k in keys:
        fill += [latin(k), "1"]
    p = c.path("globs.jsonl")
    n = 0
    with open(p, "w") as f:
        for i in range(0, len(pats), 400):
            f.write(json.dumps([fill] + [["keys", latin(map(int, x.split(",")))] for x in pats[i:i + 400]]) + "\n")
            n += 1
    trace = c.path("globs.json")
    r = c.drive("scripts", trace, **{"in": p, "latin": 1})
    c.events += r["events"]
    c.parts.append({"part": "all patterns of up to %d characters" % depth, "specification_states": dis, "patterns": len(pats), "keys": len(keys), "events": r["events"]})
    judge_hists(c, trace, n, "small patterns")
    c.say("patterns:", c.parts[-1])
    os.remove(trace)


# ---- traffic ------------------------------------------------------------------

def show_net(d, t, i, last=40):
    out = []
    evs = d["t"][t - 1]
    for j, e in enumerate(evs[:i], 1):
        if j > i - last:
            x = bytes(d["s"][e["d"] - 1]) if "d" in e else b""
            rest = {k: v for k, v in e.items() if k not in ("e", "c", "d")}
            out.append("%5d %-6s %s %s%s" % (j, e["e"], "c%d" % e["c"] if "c" in e else "", repr(x[-1500:])[1:] if "d" in e else "", rest or ""))
    return out


def judge_net(c, trace, n, what, module="NetTrace", accept=None):
    """validates recorded traffic; accept(trace, event, data) may name a known finding"""
    rej = c.validate(module, trace, n)
    if not rej and len(c.samples) >= 3:
        return
    d = json.load(open(trace))
    if len(c.samples) < 3 and d["t"]:
        t = c.rng.randrange(len(d["t"])) + 1
        c.samples.append({"traffic": what, "events": [x[:400] for x in show_net(d, t, min(len(d["t"][t - 1]), 8))]})
    for t, i in sorted(rej.items())[:20]:
        if accept and accept(t, i, d):
            continue
        text = "\n".join(["%s: trace %d, event %d is not one the specification allows" % (what, t, i)] + show_net(d, t, i))
        c.violation(text, {"events": [dict(e, d=bytes(d["s"][e["d"] - 1]).decode("latin-1")) if "d" in e else e for e in d["t"][t - 1][:i]]})


def traffic(c, scenario, n, seed=0, accept=None, **opts):
    out = c.path("net-%s-%d.json" % (scenario, seed))
    r = c.drive("net", out, scenario=scenario, n=n, seed=c.seed * 100 + seed, **opts)
    c.events += r["events"]
    part = {"part": "traffic " + scenario}
    part.update({k: v for k, v in opts.items() if k != "binary"})
    part.update(r)
    c.parts.append(part)
    judge_net(c, out, r["traces"], "traffic (%s)" % " ".join([scenario] + [str(v) for k, v in opts.items() if k != "binary"]), accept=accept)
    c.say("traffic:", part)
    if scenario == "reclog":
        judge_net(c, out + ".log", r["logs"], "what the server recorded", "DecTrace")
        os.remove(out + ".log")
    os.remove(out)
    return r


def decoding(c, n, seed=0):
    c.build_inproc()
    out = c.path("decode-%d.json" % seed)
    r = c.drive("decode", out, binary=c.drvi, n=n, seed=c.seed * 100 + seed)
    c.parts.append(dict(r, part="streams decoded by protocol.DecodeFromReader"))
    c.events += r["traces"]
    judge_net(c, out, r["traces"], "decoding", "DecTrace")
    c.say("decoding:", r)
    os.remove(out)


# ---- concurrent histories -----------------------------------------------------

def show_lin(d, t, i):
    s = [bytes(x) for x in d["s"]]
    out, pend = [], {}
    for j, e in enumerate(d["t"][t - 1][:i], 1):
        if e["k"] == "i":
            text = "%s -> %s" % (" ".join(repr(s[x - 1])[1:] for x in e["a"])[:300], rep_text(s, e["r"])[:300])
            pend.setdefault(e["c"], []).append(text)
            out.append("%4d client %d sends   %s" % (j, e["c"], text))
        else:
            out.append("%4d client %d is told %s" % (j, e["c"], pend[e["c"]].pop(0)))
    return out


def concurrent(c, n, seed=0):
    """histories of concurrent clients, judged for linearizability"""
    c.build_inproc()
    out = c.path("conc-%d.json" % seed)
    r = c.drive("conc", out, binary=c.drvi, n=n, seed=c.seed * 100 + seed)
    c.events += r["events"]
    c.parts.append(dict(r, part="concurrent histories"))
    rej = c.validate("LinTrace", out, r["traces"])
    d = json.load(open(out))
    if len(c.samples) < 3:
        t = c.rng.randrange(len(d["t"])) + 1
        c.samples.append({"concurrent history": show_lin(d, t, min(len(d["t"][t - 1]), 16))})
    for t, i in sorted(rej.items())[:20]:
        text = "\n".join(["concurrent history %d: no order of the commands explains the reply of event %d" % (t, i)] + show_lin(d, t, i))
        c.violation(text)
    c.say("concurrent:", r)
    os.remove(out)


def pool(c, what, seed=0, **opts):
    """runs of the execution queue"""
    c.build_inproc()
    out = c.path("pool-%s-%d.json" % (what, seed))
    r = c.drive("pool", out, binary=c.drvi, seed=c.seed * 100 + seed, **opts)
    c.events += r["events"]
    c.parts.append(dict(r, part="runs of the execution queue, " + what))
    rej = c.validate("PoolTrace", out, r["traces"])
    d = json.load(open(out))

    def text(t, i):
        return ["%4d %s %d %s" % (j, e["e"], e["x"], e.get("how", "")) for j, e in enumerate(d["t"][t - 1][:i], 1)]

    if len(c.samples) < 4:
        t = c.rng.randrange(len(d["t"])) + 1
        c.samples.append({"run of the queue, " + what: text(t, 20)})
    for t, i in sorted(rej.items())[:20]:
        c.violation("\n".join(["execution queue (%s), run %d: event %d is no step of spec/PoolObs.tla" % (what, t, i)] + text(t, i)))
    c.say("pool:", what, r)
    os.remove(out)


def schedules(c, events, stops, seed=0):
    """every schedule of spec/PoolGen.tla is forced on the code"""
    out, _, dis = c.tlc("PoolGen", {"EVENTS": events, "STOPS": stops})
    words = sorted(set(re.findall(r'<<"SCHEDULE", "(\w+)">>', out)))
    p = c.path("words")
    with open(p, "w") as f:
        f.write("\n".join(words))
    pool(c, "%d schedules of %d events and %d stops" % (len(words), events, stops), seed, **{"in": p})


def pool_model(c):
    cfg = "PoolModel" if c.thorough else "PoolModelSmall"
    _, gen, dis = c.tlc("PoolModel", cfg=cfg, timeout=860)
    c.parts.append({"part": "all behaviours of spec/PoolModel.tla (%s.cfg)" % cfg, "states": dis, "transitions": gen})
    for cfg in ("PoolRefines", "PoolRefinesLate") + (("PoolRefinesMore",) if c.thorough else ()):
        _, gen, dis = c.tlc("PoolRefines", cfg=cfg, timeout=860)
        c.parts.append({"part": "every behaviour of spec/Pool.tla is one of spec/PoolObs.tla (%s.cfg)" % cfg, "states": dis, "transitions": gen})


# ---- the generator of the command table ---------------------------------------

def table(c, n, depth, limit):
    """the generator, run on all small files of spec/GenFiles.tla (or a sample), on random ones and on the tree's"""
    gen = c.go_build(c.path("gen"), "./cmd/gen_redis_cmd", REPO)
    out, states, _ = c.tlc("GenFiles", {"DEPTH": depth})
    files = sorted(set(re.findall(r'<<"SCRIPT", "\[([\d,]*)\]">>', out)))
    lines = json.loads(json.loads(re.search(r'<<"LINES", (".*")>>', out).group(1)))
    total = len(files)
    if total > limit:
        files = c.rng.sample(files, limit)
    p = c.path("files.jsonl")
    with open(p, "w") as f:
        for s in files:
            f.write(json.dumps([lines[int(i) - 1] for i in s.split(",")]) + "\n")
    trace = c.path("table.json")
    r = c.drive("genfiles", trace, gen=gen, n=n, **{"in": p})
    c.events += r["traces"]
    c.parts.append(dict(r, part="generator", small_files=total, small_files_sampled=len(files), specification_states=states))
    rej = c.validate("GenTrace", trace, r["traces"])
    d = json.load(open(trace))

    def text(e):
        def s(i):
            return bytes(d["s"][i - 1]).decode("utf8", "replace")
        if e["e"] == "tree":
            return ["known to the server: " + " ".join(map(repr, map(s, e["known"])))] + [
                k + ": " + ", ".join("%r=%s" % (s(a), s(b)) for a, b in e[k]) for k in ("pairs", "committed")]
        return ["file " + s(e["file"])] + ["  | " + s(l)[:300] for l in e["lines"]] + [
            "exit %d, other files kept: %s, valid: %s, made %s" % (e["exit"], e["kept"], e["valid"], [s(m) for m in e["made"]]),
            "registers " + ", ".join("%r=%s" % (s(a)[:300], s(b)) for a, b in e["pairs"])]

    for k in (len(files) // 2, len(d["t"]) - 2, len(d["t"]) - 1):
        c.samples.append({"generator": text(d["t"][k][0])})
    for t in sorted(rej)[:20]:
        c.violation("\n".join(["the generator: not what spec/GenTable.tla says"] + text(d["t"][t - 1][0])))
    c.say("generator:", r)
    os.remove(trace)


# ---- the configuration --------------------------------------------------------

def configuration(c, n, depth, limit, seed=0):
    """histories of loads: all short ones of the documents in spec/Config.tla (or a sample), and random ones"""
    c.build_inproc()
    hists, total = [], 0
    p = c.path("hists.jsonl")
    if depth:
        out, states, _ = c.tlc("ConfGen", {"DEPTH": depth})
        hists = sorted(set(re.findall(r'<<"SCRIPT", "\[([\d,]*)\]">>', out)))
        docs = json.loads(json.loads(re.search(r'<<"LINES", (".*")>>', out).group(1)))
        total = len(hists)
        if total > limit:
            hists = c.rng.sample(hists, limit)
        with open(p, "w") as f:
            for h in hists:
                f.write(json.dumps([{"K": int(k), "Text": docs[int(k) - 1]} for k in h.split(",")]) + "\n")
        opts = {"in": p}
    else:
        opts = {}
    trace = c.path("conf.json")
    r = c.drive("config", trace, binary=c.drvi, n=n, seed=c.seed * 100 + seed, **opts)
    c.events += r["events"]
    c.parts.append(dict(r, part="histories of the configuration", specification_histories=total, replayed=len(hists)))
    rej = c.validate("ConfTrace", trace, r["traces"])
    d = json.load(open(trace))

    def text(t, i):
        return ["%3d %s" % (j, "load %r: %s" % (e["text"] if len(e.get("text", "")) < 600 else e["text"][:300] + "...", "error" if e["err"] else "ok")
                            if e["e"] == "load" else e["e"] + " " + ("-" if e["neg"] else "") + "".join(map(str, e.get("d", []))) + " ns")
                for j, e in enumerate(d["t"][t - 1][:i], 1)]

    for e in d["t"]:
        for x in e:
            for k, v in (("text", ""), ("err", False), ("neg", False)):
                x.setdefault(k, v)
    for t in (1, r["traces"]):
        c.samples.append({"configuration": text(t, 12)})
    for t, i in sorted(rej.items())[:20]:
        c.violation("\n".join(["configuration: event %d is not what spec/Config.tla says" % i] + text(t, i)))
    c.say("configuration:", r)
    os.remove(trace)
