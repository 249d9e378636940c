#!/usr/bin/env python3
"""campaign.py phase1 OUT WORKERS FILE...  | phase2 IN OUT WORKERS FRACTION
Mutation testing of the checks, in scratch copies under /tmp/mut.
phase1 keeps the mutants which build and pass the unit tests, phase2 runs the checks of their file against a sample of these."""
import json, os, random, shutil, subprocess, sys, threading, time, queue

ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:/usr/bin:/bin:/usr/sbin:/sbin", GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", CGO_ENABLED="0")
BASE = "/tmp/mut"
CHECKS = {
    "datastruct/string.go": ["C01", "C02", "C14"], "redis/string.go": ["C01", "C02", "C12", "C10"],
    "datastruct/list.go": ["C03", "C12", "C11", "C20"], "redis/list.go": ["C03", "C12", "C20"],
    "datastruct/set.go": ["C04", "C05", "C12", "C14"], "redis/set.go": ["C04", "C05", "C12", "C20"],
    "datastruct/hash_table.go": ["C06", "C07", "C12"], "redis/hash_table.go": ["C06", "C07", "C12"],
    "datastruct/sorted_set.go": ["C08", "C09", "C12", "C23"], "redis/sorted_set.go": ["C08", "C09", "C12", "C20"],
    "datastruct/keys.go": ["C11", "C10", "C13", "C12"], "redis/keys.go": ["C11", "C10", "C13"],
    "redis/command.go": ["C17", "C12", "C16"], "lib/shard_map/shard_map.go": ["C14", "C11", "C23", "C18"],
    "event/": ["C19", "C21", "C18"], "protocol/decode.go": ["C15", "C20", "C22"], "protocol/encode.go": ["C17", "C15", "C23"],
    "server/v2": ["C16", "C15", "C21", "C20"], "cmd/gen_redis_cmd": ["C24"], "cmd/server": ["C21", "C16", "C20"], "config/": ["C25"],
    "util/": ["C07", "C08", "C02"], "persistence": ["C22"], "debug": ["C16"], ".cmd.go": ["C17", "C24"],
}


def props(f):
    if f.endswith(".cmd.go"):
        return CHECKS[".cmd.go"]
    for k, v in CHECKS.items():
        if f.startswith(k):
            return v
    return ["C12"]


def run(cmd, cwd, timeout):
    p = subprocess.Popen(["bash", "-c", "ulimit -v 24000000; exec " + cmd], cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return -1, "timeout"


def apply(root, m):
    p = os.path.join(root, m["File"])
    s = open("/repo/" + m["File"], "rb").read()
    open(p, "wb").write(s[:m["From"]] + m["New"].encode() + s[m["To"]:])


def undo(root, m):
    shutil.copy("/repo/" + m["File"], os.path.join(root, m["File"]))


def pool(items, n, f, prep):
    q = queue.Queue()
    for x in items:
        q.put(x)

    def loop(i):
        root = prep(i)
        while True:
            try:
                x = q.get_nowait()
            except queue.Empty:
                return
            f(i, root, x)

    ts = [threading.Thread(target=loop, args=(i,)) for i in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]


def repo_copy(i):
    root = "%s/r%d" % (BASE, i)
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(BASE, exist_ok=True)
    shutil.copytree("/repo", root, ignore=shutil.ignore_patterns(".git"))
    return root


lock = threading.Lock()


def phase1(out, n, files):
    ms = [json.loads(l) for l in subprocess.run(["/tmp/mutate"] + files, cwd="/repo", stdout=subprocess.PIPE).stdout.splitlines()]
    o = open(out, "a")
    count = {}

    def f(i, root, m):
        apply(root, m)
        rc, _ = run("go build ./...", root, 120)
        if rc:
            r = "build"
        else:
            rc, _ = run("go test -count=1 -vet=off -timeout 40s $(go list ./... | grep -v -e e2e -e server)", root, 120)
            r = "tests" if rc else "alive"
        undo(root, m)
        with lock:
            count[r] = count.get(r, 0) + 1
            if r == "alive":
                o.write(json.dumps(m) + "\n")
                o.flush()

    pool(ms, n, f, repo_copy)
    print(count)


def prep2(i):
    root = repo_copy(i)
    v = "%s/v%d" % (BASE, i)
    shutil.rmtree(v, ignore_errors=True)
    shutil.copytree("/verif", v, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
    os.makedirs(v + "/evidence")
    subprocess.check_call("sed -i 's#^REPO = .*#REPO = \"%s\"#' lib.py && sed -i 's#=> /repo#=> %s#' harness/go.mod && sed -i 's#\"/repo/redis\"#\"%s/redis\"#' harness/genfiles.go" % (root, root, root), shell=True, cwd=v)
    lib = open(v + "/lib.py").read()
    lib = lib.replace("        self.violations.append(p)\n", "        self.violations.append(p)\n        print('VIOLATION'); sys.stdout.flush(); os._exit(1)\n")
    open(v + "/lib.py", "w").write(lib)
    return root


def phase2(inp, out, n, frac):
    ms = [json.loads(l) for l in open(inp)]
    seen = set()
    if os.path.exists(out):
        seen = {json.loads(l)["Desc"] + json.loads(l)["New"] for l in open(out)}
    rng = random.Random(7)
    ms = [m for m in ms if rng.random() < frac and m["Desc"] + m["New"] not in seen]
    rng.shuffle(ms)
    o = open(out, "a")

    def f(i, root, m):
        apply(root, m)
        t = time.time()
        res, by = "missed", ""
        for p in props(m["File"]):
            rc, txt = run("env VERIF_SEED=1 VERIF_TIER=quick VERIF_FAILFAST=1 python3 check.py %s quick" % p, "%s/v%d" % (BASE, i), 600)
            if rc == 1 and "VIOLATION" in txt:
                res, by = "caught", p
                break
            if rc != 0:
                res, by = "broken", p + " rc=%d " % rc + txt[-500:]
                break
        undo(root, m)
        with lock:
            o.write(json.dumps(dict(m, Result=res, By=by, Time=round(time.time() - t))) + "\n")
            o.flush()

    pool(ms, n, f, prep2)


if sys.argv[1] == "phase1":
    phase1(sys.argv[2], int(sys.argv[3]), sys.argv[4:])
else:
    phase2(sys.argv[2], sys.argv[3], int(sys.argv[4]), float(sys.argv[5]))
