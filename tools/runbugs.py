#!/usr/bin/env python3
"""runbugs.py [id...]: runs the check of each planted bug's property on a scratch copy of /repo with the bug."""
import sys, os, json, subprocess, shutil, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = V + "/seeded/" + i
    m = json.load(open(d + "/meta.json"))
    t = tempfile.mkdtemp(prefix="rb.")
    r = t + "/repo"; shutil.copytree("/repo", r)
    subprocess.run(["git", "apply", d + "/patch.diff"], cwd=r, check=True)
    t0 = time.time()
    x = subprocess.run(["bin/check", m["property"], "quick"], cwd=V, env=dict(os.environ, GV_REPO=r, VERIF_SEED="1"), capture_output=True, text=True)
    v = [l for l in x.stdout.splitlines() if l.startswith("VIOLATION")]
    f = [l for l in x.stdout.splitlines() if l.startswith("failed obligation")]
    print("%-28s rc=%d %.0fs %s | %s" % (i, x.returncode, time.time() - t0, "no-input" if v and "no-failing" in v[0] else ("INPUT" if v else "MISSED"), "; ".join(l[19:130] for l in f[:2])), flush=True)
    shutil.rmtree(t)
