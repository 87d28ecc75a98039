#!/usr/bin/env python3
"""catch.py [-all] [ID...]: applies each planted bug to /repo, runs its property's check (or all), undoes it."""
import json, os, subprocess, sys, time
V = "/verif"
args = [a for a in sys.argv[1:] if not a.startswith("-")]
allp = "-all" in sys.argv
ids = args or sorted(os.listdir(V + "/seeded"))
props = [f"C{i:02d}" for i in range(1, 28)]
assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout
for i in ids:
    own = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
    subprocess.run(["git", "-C", "/repo", "apply", f"{V}/seeded/{i}/patch.diff"], check=True)
    out = []
    try:
        for p in (props if allp else [own]):
            t = time.time()
            r = subprocess.run(["./run.sh", p], cwd=V, capture_output=True, text=True)
            hit = r.returncode == 1 and f"VIOLATION property={p} " in r.stdout
            if hit or r.returncode not in (0, 1) or p == own:
                out.append(f"{p}{'*' if p == own else ''}:{'caught' if hit else 'MISSED' if r.returncode == 0 else 'ERROR %d %s' % (r.returncode, r.stderr[-300:])}({time.time()-t:.0f}s)")
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    print(i, " ".join(out), flush=True)
