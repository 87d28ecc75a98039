#!/usr/bin/env python3
"""plant.py [ID...]: builds /verif/seeded/<id> from bugs.py and confirms each bug in a scratch copy of /repo."""
import json, os, subprocess, sys, shutil, tempfile
sys.path.insert(0, os.path.dirname(__file__))
from bugs import BUGS
V = "/verif/seeded"
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
W = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
def sh(cmd, cwd, **k): return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, **k)
GO = '''package scte35_test

import (
%s)

func TestDemo(t *testing.T) {
%s
}
'''
DEMO = '''#!/bin/bash
# Run in the repository. The demonstration is compiled as a test of pkg/scte35 through an overlay.
d=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/pkg/scte35/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$d" >"$t/overlay.json"
%s
'''
RUN = 'timeout 200 go test -vet=off -count=1 -overlay "$t/overlay.json" -run "^TestDemo$" ./pkg/scte35'
CLI = '''#!/bin/bash
# Run in the repository. Builds the tool into a scratch directory and runs it.
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
go build -o "$t/scte35" . || exit 2
%s
'''
CLIS = {
 "decode-xml-bad": '''"$t/scte35" decode --out xml 0xfc301100000000000000fffff00000000000000000 2>/dev/null | grep -q '<SpliceInfoSection' ''',
 "encode-space": '''printf '\\n  <SpliceInfoSection xmlns="http://www.scte.org/schemas/35" tier="4095" sapType="3"><SpliceNull/></SpliceInfoSection>' | "$t/scte35" encode | grep -q '^Hex   : fc30' ''',
}
want = sys.argv[1:]
ok = True
for b in BUGS:
    if want and b["id"] not in want: continue
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", W], check=True)
    d = os.path.join(V, b["id"]); os.makedirs(d, exist_ok=True)
    for f in os.listdir(d): os.remove(os.path.join(d, f))
    bad = None
    if b["demo"] and b["demo"].startswith("CLI:"):
        open(d + "/demo.sh", "w").write(CLI % CLIS.get(b["demo"][4:], b["demo"][4:]))
    else:
        race = b["demo"].startswith("RACE:")
        if race: b["demo"] = b["demo"][5:]
        open(d + "/demo.sh", "w").write(DEMO % (RUN.replace("-count=1", "-count=1 -race") if race else RUN))
        imps = "".join('\t"%s"\n' % i for i in sorted(b["imports"] + ["testing"])) + '\n\t"github.com/Comcast/scte35-go/pkg/scte35"\n'
        open(d + "/demo_test.go.txt", "w").write(GO % (imps, b["demo"]))
        subprocess.run(["gofmt", "-w", d + "/demo_test.go.txt"])
    os.chmod(d + "/demo.sh", 0o755)
    r = sh(f"bash {d}/demo.sh", W)
    if r.returncode != 0: bad = "demo fails unpatched: " + r.stdout[-800:] + r.stderr[-800:]
    for f, o, n in b["edits"]:
        s = open(os.path.join(W, f)).read()
        if s.count(o) != 1: bad = f"{f}: {s.count(o)} matches of {o!r}"; break
        open(os.path.join(W, f), "w").write(s.replace(o, n))
    if not bad:
        for f in {f for f, _, _ in b["edits"]}: subprocess.run(["gofmt", "-w", os.path.join(W, f)])
        p = sh("git diff", W).stdout
        open(d + "/patch.diff", "w").write(p)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = sh("go build ./... && go vet ./pkg/scte35", W)
        if r.returncode: bad = "build: " + r.stderr
        r = sh("go test -vet=off -count=1 ./...", W)
        if not bad and r.returncode: bad = "tests: " + r.stdout[-600:]
        r = sh(f"bash {d}/demo.sh", W)
        if not bad and r.returncode == 0: bad = "demo passes with the patch"
    print(b["id"], "OK" if not bad else "BAD " + bad, flush=True)
    ok &= not bad
shutil.rmtree(W, ignore_errors=True)
sys.exit(not ok)
