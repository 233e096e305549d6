#!/usr/bin/env python3
"""mkbug.py BUGS.py [id...]: makes /verif/seeded/<id> from a description of a bug and confirms it in a scratch copy:
it applies, builds, passes the stable tests, and its demonstration tells it from the unchanged tree."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Runs the demonstration test as part of the package in the working directory.
d="$(cd "$(dirname "$0")" && pwd)"
export GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOTOOLCHAIN=local
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
exec go test -vet=off -count=1 -timeout 120s%s -run '^TestSeededDemo$' \\
  -overlay <(printf '{"Replace": {"%%s/zz_seeded_demo_test.go": "%%s/demo_test.go"}}' "$PWD" "$d") .
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
def sh(cmd, cwd): return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, executable="/bin/bash")
env = "export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOTOOLCHAIN=local; "
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for b in ns["BUGS"]:
    if only and b["id"] not in only: continue
    t = tempfile.mkdtemp(prefix="bug.")
    r = os.path.join(t, "repo"); shutil.copytree("/repo", r)
    ok = True
    for f, old, new in b["edits"]:
        s = open(os.path.join(r, f)).read()
        if s.count(old) != 1:
            print(b["id"], "old text occurs", s.count(old), "times in", f); ok = False; break
        open(os.path.join(r, f), "w").write(s.replace(old, new))
    if ok:
        out = sh("git diff", r).stdout
        added = []
        x = sh(env + "go build ./... && go test -json -vet=off -count=1 ./... ", r)
        passed = set()
        for l in x.stdout.splitlines():
            try: e = json.loads(l)
            except Exception: continue
            if e.get("Action") == "pass" and e.get("Test"): passed.add(e["Package"] + "/" + e["Test"])
        missing = sorted(s for s in stable if s not in passed)
        if missing:
            print(b["id"], "REJECTED: tests fail:", missing[:5], x.stderr[-500:]); ok = False
    if ok:
        d = os.path.join(V, "seeded", b["id"]); os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(out)
        open(d + "/demo.sh", "w").write(DEMO % (" -race" if b.get("race") else ""))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo_test.go", "w").write(b["test"].lstrip())
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        c = sh("bash %s/demo.sh" % d, "/repo"); p = sh("bash %s/demo.sh" % d, r)
        if c.returncode != 0 or p.returncode == 0:
            print(b["id"], "REJECTED: demo clean", c.returncode, "patched", p.returncode, c.stdout[-1500:], c.stderr[-500:]); shutil.rmtree(d)
        else: print(b["id"], "ok")
    shutil.rmtree(t)
