#!/usr/bin/env python3
"""show.py TRACE.json HISTORY EVENT [CONTEXT]: prints recorded events before the given one"""
import json, sys
d = json.load(open(sys.argv[1]))
t, i = int(sys.argv[2]), int(sys.argv[3])
ctx = int(sys.argv[4]) if len(sys.argv) > 4 else 8
s = [bytes(x) for x in d["s"]]
def rep(r):
    if r[0] == "a": return "[" + ", ".join(rep(x) for x in r[1]) + "]"
    if len(r) == 1: return r[0]
    return r[0] + repr(s[r[1] - 1])[1:]
for j, e in enumerate(d["t"][t - 1][:i], 1):
    if j > i - ctx:
        print(j, [repr(s[x - 1])[1:][:120] for x in e["a"]], "->", rep(e["r"])[:400])
