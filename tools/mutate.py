#!/usr/bin/env python3
"""mutate.py [-t TIER] BUG [PROPERTY ...]: runs checks against a scratch copy of /repo with a planted bug (by id or patch file)."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
tier = "quick"
if a[0] == "-t":
    tier = a[1]
    a = a[2:]
for bug in (a[:1] if a[0] != "all" else sorted(os.listdir(ROOT + "/seeded"))):
    d = os.path.join(ROOT, "seeded", bug)
    patch = os.path.join(d, "patch.diff") if os.path.isdir(d) else os.path.abspath(bug)
    props = a[1:] or [json.load(open(d + "/meta.json"))["property"]]
    w = tempfile.mkdtemp(prefix="mut-")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", w + "/repo"], check=True)
        subprocess.run(["git", "apply", patch], cwd=w + "/repo", check=True)
        for p in props:
            r = subprocess.run([sys.executable, "check.py", p, tier], cwd=ROOT, env=dict(os.environ, RAMP_REPO=w + "/repo"), stdout=subprocess.PIPE, text=True)
            print("%s %s: exit %d %s" % (bug, p, r.returncode, "caught" if r.returncode == 1 else ""), "|", (r.stdout.strip().splitlines() or [""])[0][:230], flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
