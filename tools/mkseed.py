#!/usr/bin/env python3
"""Builds and verifies planted bugs: mkseed.py [ID ...] from seeds.py into /verif/seeded."""
import os, sys, subprocess, shutil, json, tempfile, textwrap
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS
SEEDED = os.path.join(HERE, "..", "seeded")
GO = "/opt/veriftools/go1.23.12/bin"
ENV = dict(os.environ, PATH=GO + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", GOTOOLCHAIN="local",
    GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", GOWORK="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

DEMO = '''#!/bin/bash
# Runs the demonstration test against the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_test.go": "%%s/demo_test.go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test %(race)s-vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestDemo' ./%(pkg)s
'''

def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **k)

def stable_fail(cwd):
    r = run(["go", "test", "-json", "-vet=off", "-count=1", "./..."], cwd)
    ok = set()
    for l in r.stdout.splitlines():
        try: d = json.loads(l)
        except Exception: continue
        if d.get("Action") == "pass" and d.get("Test"): ok.add(d["Package"] + "/" + d["Test"])
    return STABLE - ok

def main(ids):
    base = tempfile.mkdtemp(prefix="seed-")
    bad = 0
    try:
        wt = os.path.join(base, "repo")
        subprocess.check_call(["cp", "-a", "/repo", wt])
        subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=wt)
        for sid, s in SEEDS.items():
            if ids and sid not in ids: continue
            d = os.path.join(SEEDED, sid)
            os.makedirs(d, exist_ok=True)
            subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=wt)
            for f, old, new in s["edits"]:
                p = os.path.join(wt, f)
                t = open(p).read()
                if t.count(old) < 1: print(sid, "NO MATCH", f, repr(old)); bad += 1; break
                if t.count(old) > 1: print(sid, "AMBIGUOUS", f, repr(old)); bad += 1; break
                open(p, "w").write(t.replace(old, new))
            else:
                diff = run(["git", "diff"], wt).stdout
                open(os.path.join(d, "patch.diff"), "w").write(diff)
                with open(os.path.join(d, "demo.sh"), "w") as f:
                    f.write(DEMO % {"pkg": s["pkg"], "race": "-race " if s.get("race") else ""})
                os.chmod(os.path.join(d, "demo.sh"), 0o755)
                open(os.path.join(d, "demo_test.go.txt"), "w").write(textwrap.dedent(s["demo"]).lstrip())
                json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
                b = run(["go", "build", "./..."], wt)
                if b.returncode: print(sid, "BUILD", b.stderr); bad += 1; continue
                sf = stable_fail(wt)
                if sf: print(sid, "STABLE FAIL", sf); bad += 1; continue
                r1 = run(["bash", os.path.join(d, "demo.sh")], wt)
                subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=wt)
                r0 = run(["bash", os.path.join(d, "demo.sh")], wt)
                okk = r1.returncode != 0 and r0.returncode == 0 and "build failed" not in r1.stdout
                print(sid, "ok" if okk else "DEMO patched=%d clean=%d\n%s\n%s" % (r1.returncode, r0.returncode, r1.stdout[-1500:] + r1.stderr[-500:], r0.stdout[-800:]))
                bad += 0 if okk else 1
    finally:
        shutil.rmtree(base)
    sys.exit(1 if bad else 0)
main(sys.argv[1:])
