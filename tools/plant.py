#!/usr/bin/env python3
"""Plants the bugs defined in tools/bugs/<id>.py into /verif/seeded/<id>/ after confirming them in scratch copies.

A definition has PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)...] and DEMO (the text of demo.py).
usage: plant.py [id ...]   (all which are not planted yet)
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import xml.etree.ElementTree as ET

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
PY = "/opt/pypyvenv/bin/python"
SH = '''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg BROWSER=true
S=$(mktemp -d) || exit 99
trap 'rm -rf "$S"' EXIT
export SCRATCH="$S"
%s "$D/demo.py"
''' % PY


def plant(i):
    g = {}
    exec(open(os.path.join(ROOT, "tools/bugs", i + ".py")).read(), g)
    w = tempfile.mkdtemp(prefix="plant-%s-" % i)
    try:
        c = w + "/repo"
        subprocess.run(["git", "clone", "-q", "/repo", c], check=True)
        for f, old, new in g["EDITS"]:
            p = os.path.join(c, f)
            s = open(p).read()
            if s.count(old) != 1:
                return i, "old text found %d times in %s" % (s.count(old), f)
            open(p, "w").write(s.replace(old, new))
        patch = subprocess.run(["git", "diff"], cwd=c, stdout=subprocess.PIPE, text=True, check=True).stdout
        d = w + "/" + i
        os.makedirs(d)
        open(d + "/demo.py", "w").write(g["DEMO"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(SH)
        open(d + "/patch.diff", "w").write(patch)
        json.dump(dict(property=g["PROPERTY"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
        # no change may touch lines added by the commits of this work
        for f in {e[0] for e in g["EDITS"]}:
            touched = 0
            base = None
            for line in subprocess.run(["git", "diff", "-U0", f], cwd=c, stdout=subprocess.PIPE, text=True).stdout.splitlines():
                if line.startswith("@@"):
                    a = line.split()[1][1:].split(",")
                    n = int(a[1]) if len(a) > 1 else 1
                    if n:
                        bl = subprocess.run(["git", "blame", "-s", "-l", "-L", "%s,+%d" % (a[0], n), "HEAD", "--", f], cwd=c, stdout=subprocess.PIPE, text=True).stdout
                        touched += sum(1 for x in bl.splitlines() if "8b5735c" not in x.split()[0])
            if touched:
                print(i, "NOTE: changes %d lines of fix commits in %s" % (touched, f))
        r0 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        if r0.returncode != 0:
            return i, "demo fails on the unchanged tree (%d): %s" % (r0.returncode, r0.stdout[-1500:])
        r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        if r1.returncode == 0:
            return i, "demo passes with the change"
        env = dict(os.environ, PYTHONPATH=c + ":/opt/vp/plugins", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", BROWSER="true",
                   PATH="/opt/pypyvenv/bin:" + os.environ["PATH"], IPYTHONDIR=w + "/ip", JUPYTER_RUNTIME_DIR=w + "/jr", MPLCONFIGDIR=w + "/mpl")
        passed = set()
        for k, a in enumerate((["tests", "--ignore=tests/test_notebooks.py"], ["-n", "2", "tests/test_notebooks.py"])):
            subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "--continue-on-collection-errors", "-o", "junit_family=xunit2",
                            "--timeout=600", "--junitxml=%s/r%d.xml" % (w, k)] + a, cwd=c, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
            for t in ET.parse("%s/r%d.xml" % (w, k)).getroot().iter("testcase"):
                if not [x for x in t if x.tag in ("failure", "error", "skipped")]:
                    passed.add(t.get("classname") + "::" + t.get("name"))
            subprocess.run(["git", "checkout", "-q", "--", "tests", "docs", "ramp/example"], cwd=c)
        miss = STABLE - passed
        if miss:
            return i, "tests fail with the change: %s" % sorted(miss)[:5]
        out = os.path.join(ROOT, "seeded", i)
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        return i, "planted (demo: %d, %s)" % (r1.returncode, r1.stdout.strip().splitlines()[-1][:150] if r1.stdout.strip() else "")
    except Exception as e:
        return i, "error %r" % e
    finally:
        shutil.rmtree(w, ignore_errors=True)


ids = sys.argv[1:] or sorted(x[:-3] for x in os.listdir(os.path.join(ROOT, "tools/bugs")) if x.endswith(".py") and not os.path.exists(os.path.join(ROOT, "seeded", x[:-3])))
with ThreadPoolExecutor(4) as ex:
    for i, what in ex.map(plant, ids):
        print(i + ":", what, flush=True)
