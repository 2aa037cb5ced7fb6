#!/usr/bin/env python3
"""trypatch.py [-R <commit>[+commit..] | <file>] ID...: run checks with a change applied to /repo, then undo it."""
import subprocess, sys, os
args = sys.argv[1:]
R = "/repo"
def git(*a, inp=None):
    return subprocess.run(["git", "-C", R, *a], input=inp, capture_output=True)
assert not git("status", "--porcelain").stdout.strip(), "dirty"
try:
    if args[0] == "-R":
        for c in args[1].split("+"):
            d = git("show", c).stdout
            r = git("apply", "-R", "--3way", inp=d)
            if r.returncode:
                print("cannot revert", c, r.stderr.decode()[-300:]); sys.exit(3)
        ids = args[2:]
    else:
        r = git("apply", os.path.abspath(args[0]))
        if r.returncode:
            print("cannot apply", r.stderr.decode()[-300:]); sys.exit(3)
        ids = args[1:]
    for i in ids:
        p = subprocess.run([sys.executable, "/verif/check.py", i], capture_output=True, text=True)
        v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        msg = [l for l in p.stderr.splitlines() if l.startswith((i + ":", "ERROR"))]
        print(f"{args[0] if args[0] != '-R' else 'revert ' + args[1]}: {i} exit {p.returncode}, {len(v)} violations; {msg[0][:200] if msg else p.stderr[-300:]}", flush=True)
finally:
    git("reset", "-q"); git("checkout", "--", "."); 
