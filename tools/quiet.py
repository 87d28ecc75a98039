#!/usr/bin/env python3
"""quiet.py DIFF [ID...]: applies a behaviour-preserving change to /repo, runs the checks, which must stay quiet, undoes it."""
import subprocess, sys, time
V = "/verif"
props = sys.argv[2:] or [f"C{i:02d}" for i in range(1, 28)]
assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout
subprocess.run(["git", "-C", "/repo", "apply", sys.argv[1]], check=True)
try:
    for p in props:
        t = time.time()
        r = subprocess.run(["./run.sh", p], cwd=V, capture_output=True, text=True)
        print(p, "quiet" if r.returncode == 0 and "VIOLATION" not in r.stdout else f"ALARM {r.returncode} {r.stdout[-1500:]} {r.stderr[-1500:]}", f"{time.time()-t:.0f}s", flush=True)
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
