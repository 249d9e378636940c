#!/usr/bin/env python3
"""plant.py [ID...]: writes the planted bugs to /verif/seeded and confirms each against /repo, which is left as it was"""
import json
import os
import shutil
import subprocess
import sys

from bugs import BUGS

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"


def sh(*a, **kw):
    return subprocess.run(a, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    assert sh("git", "status", "--porcelain").stdout == "", "/repo is not clean"
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
    for id in sys.argv[1:] or BUGS:
        b = BUGS[id]
        d = "/verif/seeded/" + id
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        try:
            for fn, old, new in b["edits"]:
                p = os.path.join(REPO, fn)
                s = open(p).read()
                assert s.count(old) == 1, (id, fn, s.count(old))
                open(p, "w").write(s.replace(old, new))
            fmt = sh("gofmt", "-l", *sorted({e[0] for e in b["edits"]}))
            if fmt.stdout.strip() not in ("", "datastruct/hash_table.go"):
                print(id, "gofmt:", fmt.stdout.strip())
            open(d + "/patch.diff", "w").write(sh("git", "diff").stdout)
            # which of the lines it takes away are original
            touched = 0
            for fn in sorted({e[0] for e in b["edits"]}):
                for line in sh("git", "diff", "-U0", fn).stdout.splitlines():
                    if line.startswith("@@"):
                        o = line.split()[1][1:].split(",")
                        start, n = int(o[0]), int(o[1]) if len(o) > 1 else 1
                        if n:
                            bl = sh("git", "blame", "-s", "HEAD", "-L", "%d,%d" % (start, start + n - 1), fn).stdout
                            touched += sum(x.startswith("^") for x in bl.splitlines())
            open(d + "/meta.json", "w").write(json.dumps(
                {"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
            if b["py"]:
                shutil.copy(HERE + "/godis.py", d)
                open(d + "/demo.py", "w").write("from godis import *\n" + b["py"] + "\n\nrun(f)\n")
                open(d + "/demo.sh", "w").write('#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 python3 "$(dirname "$0")/demo.py"\n')
            else:
                open(d + "/demo_test.go", "w").write(b["go"].lstrip())
                open(d + "/demo.sh", "w").write(open(HERE + "/go_demo.sh").read().replace("PKG", b["pkg"]))
            os.chmod(d + "/demo.sh", 0o755)
            build = sh("bash", "/opt/vp/build.sh")
            test = sh("bash", "/opt/vp/test.sh", "/tmp/plant-out.json")
            demo = sh("bash", d + "/demo.sh")
        finally:
            sh("git", "checkout", "--", ".")
        clean = sh("bash", d + "/demo.sh")
        ok = build.returncode == 0 and test.returncode == 0 and demo.returncode != 0 and clean.returncode == 0 and touched > 0
        print(id, "OK" if ok else "BAD", "build %d test %d demo %d clean %d original %d" % (
            build.returncode, test.returncode, demo.returncode, clean.returncode, touched), flush=True)
        if not ok:
            print(build.stdout[-500:], test.stdout[-800:], "demo:", demo.stdout[-500:], "clean:", clean.stdout[-500:])


main()
