#!/usr/bin/env python3
"""Development aid: many text mutations, each in its own scratch copy.
   muts.py FILE     FILE: blocks '@@ path check...' / old text / '==' / new text
"""
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor


def one(i, job):
    (f, checks), old, new = job
    d = f"/tmp/muts/{i}"
    subprocess.check_call(["mkdir", "-p", d])
    subprocess.check_call(["cp", "-aT", os.environ.get("MREPO","/repo"), d])
    p = os.path.join(d, f)
    s = open(p).read()
    if old not in s:
        return f"[{i}] TEXT NOT FOUND {old[:60]!r}"
    open(p, "w").write(s.replace(old, new, 1))
    out = f"[{i}] {f}: {old.strip()[:50]!r} -> {new.strip()[:50]!r}\n"
    for c in checks:
        r = subprocess.run(["python3", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "check.py"), c], text=True,
                           env=dict(os.environ, DIFFKEMP_REPO=d),
                           capture_output=True)
        v = [x[:170] for x in (r.stdout + r.stderr).splitlines()
             if "rule " in x[:8] or "BROKEN" in x]
        out += f"   {c}: exit {r.returncode} ({len(v)}) " + \
            " | ".join(v[:2]) + "\n"
    shutil.rmtree(d)
    return out.rstrip()


def main():
    jobs = []
    for b in open(sys.argv[1]).read().split("@@ ")[1:]:
        head, body = b.split("\n", 1)
        old, new = body.split("\n==\n")
        h = head.split()
        jobs.append(((h[0], h[1:]), old, new.rstrip("\n")))
    with ThreadPoolExecutor(7) as ex:
        for r in ex.map(lambda x: one(*x), enumerate(jobs)):
            print(r, flush=True)


main()
