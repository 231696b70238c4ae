#!/usr/bin/env python3
"""Development aid: run checks on a scratch copy of /repo with one text
replacement.   mut.py FILE OLD NEW CHECK..."""
import os
import shutil
import subprocess
import sys

D = "/tmp/mut"


def main():
    f, old, new, *checks = sys.argv[1:]
    subprocess.check_call(["mkdir", "-p", D])
    subprocess.check_call(["rsync", "-a", "--delete", "/repo/", D + "/"]
                          if shutil.which("rsync") else
                          ["cp", "-a", "-u", "-T", "/repo", D])
    p = os.path.join(D, f)
    shutil.copyfile(os.path.join("/repo", f), p)
    s = open(p).read()
    old = old.encode().decode("unicode_escape")
    new = new.encode().decode("unicode_escape")
    if old not in s:
        print("MUT: text not found:", old)
        return 2
    open(p, "w").write(s.replace(old, new, 1))
    for c in checks:
        r = subprocess.run(["python3", "/verif/check.py", c], text=True,
                           env=dict(os.environ, DIFFKEMP_REPO=D),
                           capture_output=True)
        out = [x for x in (r.stdout + r.stderr).splitlines()]
        v = [x[:220] for i, x in enumerate(out) if "rule " in x[:8]
             or "BROKEN" in x]
        print(f"{c}: exit {r.returncode}", *v[:4], sep="\n   ")
    shutil.copyfile(os.path.join("/repo", f), p)


sys.exit(main())
