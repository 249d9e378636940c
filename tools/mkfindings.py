#!/usr/bin/env python3
"""writes known_findings.txt: the findings listed here and the fix commits of /repo with the property each repairs"""
import subprocess
FINDINGS = [
    ("C16", "unread-replies", "a client that leaves more than about 1024 separately sent replies unread (8000 GETs of a 5000-byte value in one segment each, "
     "nothing read meanwhile) is disconnected and loses replies: gnet v1.6.3 hands more than IOV_MAX buffers to writev, gets EINVAL and closes the connection"),
]
P = {  # subject of a fix -> property
    "lindex reads": "C03", "a list emptied by lrem": "C03", "lrem with the smallest": "C03", "spop keeps": "C04", "spop without": "C04", "smove checks": "C04",
    "smembers and smove": "C11", "set algebra counts": "C05", "a stored set algebra": "C05", "sdiff, sinter": "C05", "hdel removes": "C06", "hexists replies": "C06",
    "a hash created": "C06", "a field created": "C06", "a hash field reads": "C06", "hgetall encodes": "C06", "mset, hset": "C12", "del, exists": "C11",
    "integer counters refuse": "C02", "hincrbyfloat refuses": "C07", "mget answers": "C10", "a malformed keys": "C13", "zrem finds": "C08", "zpopmin and zpopmax forget": "C08",
    "zpopmax stops": "C08", "zrank counts": "C08", "zrevrange counts": "C08", "score intervals": "C09", "a score interval": "C09", "a score is never": "C08", "zincr replies": "C08",
    "zadd refuses": "C12", "zrangebyscore honours": "C09", "a list that lost": "C11", "a set that lost": "C11", "storing an empty": "C05", "a hash that lost": "C11",
    "a sorted set without": "C11", "a malformed length": "C20", "nested arrays": "C22", "the recorded text": "C22", "a bulk string": "C15", "a request that is cut": "C15",
    "recording a request": "C23", "stopping executes": "C21", "a request answered": "C19", "a command which outlives": "C19", "requests are recognised": "C15", "prepared data": "C18",
    "the generator": "C24", "the parts of a keys": "C13", "a keys pattern is matched": "C13", "zpopmin and zpopmax refuse": "C10", "a refused zadd": "C12",
}
MORE = {"a keys pattern is matched": ["C20"], "requests are recognised": ["C16", "C20"], "stopping executes": ["C19"]}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
out = ["# Genuine defects of yusank/godis.  'finding' lines: not repaired, the check reports them as KNOWN-FINDING;",
       "# 'fixed' lines: repaired by that commit of /repo, they suppress nothing."]
for p, n, d in FINDINGS:
    out.append("finding: property=%s name=%s %s" % (p, n, d))
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    k = [x for x in P if s.startswith(x)]
    assert len(k) == 1, (s, k)
    for p in [P[k[0]]] + MORE.get(k[0], []):
        out.append("fixed: property=%s %s %s" % (p, h, s))
open("/verif/known_findings.txt", "w").write("\n".join(out) + "\n")
