"""Common part of the checks: scratch space, TLC, drivers, verdicts and evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(ROOT, "specs")
HARNESS = os.path.join(ROOT, "harness")
REPO = os.environ.get("RAMP_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PYPY = os.environ.get("RAMP_PYTHON", "/opt/pypyvenv/bin/python")
NPROC = max(1, min(8, os.cpu_count() or 1))


class Broken(Exception):
    """The check itself could not do its work."""


class Failed(Exception):
    """The code under test raised an error where none is provided for."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.deep = tier == "thorough"
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        os.chmod(self.dir, 0o755)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.detail = {}
        self.fails = []
        self.assumptions = []
        self.n = 0

    # -- running things -------------------------------------------------
    def path(self, name):
        return os.path.join(self.dir, name)

    def env(self, **kw):
        e = dict(os.environ)
        e.update(PYTHONPATH=HARNESS + ":" + REPO, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", BROWSER="true",
                 RAMP_REPO=REPO, PYTHONHASHSEED="0", HOME=self.dir, TMPDIR=self.dir)
        e.update({k: str(v) for k, v in kw.items()})
        return e

    def driver(self, script, *args, timeout=700, cwd=None, **env):
        """Run a driver (it imports the code under test) with the repository's interpreter."""
        cmd = [PYPY, os.path.join(HARNESS, script)] + [str(a) for a in args]
        p = subprocess.run(cmd, cwd=cwd or self.dir, env=self.env(**env), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, text=True, errors="replace", stdin=subprocess.DEVNULL)
        failed = [line[9:] for line in p.stderr.splitlines() if line.startswith("@@FAILED ")]
        if failed:
            self.fail("%s: the code under test failed: %s" % (script, failed[0]), errors=failed, output=p.stderr[-4000:])
            raise Failed()
        if p.returncode != 0:
            raise Broken("%s failed (%d)\n%s\n%s" % (script, p.returncode, p.stdout[-2000:], p.stderr[-4000:]))
        return p.stdout

    def tlc(self, module, cfg=None, workers=None, timeout=700, mem="6g", extra=(), expect_ok=True, **env):
        """Run TLC on a module of specs/; returns the objects printed as @@KEY json, and its counters."""
        self.n += 1
        meta = self.path("tlc%d" % self.n)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + mem, "-cp", JARS, "tlc2.TLC", "-metadir", meta,
               "-workers", str(workers or NPROC), "-noGenerateSpecTE", "-seed", str(self.seed), "-config", (cfg or module + ".cfg")]
        cmd += list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in env.items()})
        p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                           errors="replace", stdin=subprocess.DEVNULL)
        shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout
        printed = {}
        for line in out.splitlines():
            if line.startswith('"@@'):
                s = json.loads(line)
                key, _, js = s[2:].partition(" ")
                printed.setdefault(key, []).append(json.loads(js))
        st = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "").replace(" states generated ", " states generated, "))
        gen = int(st[-1][0]) if st else 0
        dist = int(st[-1][1]) if st else 0
        self.transitions += gen
        self.states += dist
        ok = "Model checking completed. No error has been found." in out or ("-simulate" in extra and "Error:" not in out)
        if expect_ok and not ok:
            raise Broken("TLC %s: %s" % (module, out[-4000:]))
        self.detail.setdefault("tlc", []).append(dict(module=module, states=dist, transitions=gen))
        return printed, out

    def jdump(self, name, obj):
        p = self.path(name)
        with open(p, "w") as f:
            json.dump(obj, f)
        return p

    # -- verdict --------------------------------------------------------
    def fail(self, what, key=None, **replay):
        self.fails.append(dict(what=what, key=key or what, **replay))

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def finish(self):
        known = []
        kf = os.path.join(ROOT, "known_findings.json")
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf))["findings"] if k["property"] == self.prop]
        reported, unknown = set(), []
        for f in self.fails:
            hit = [k for k in known if f["key"] == k["key"]]
            if hit:
                reported.add(hit[0]["key"])
            else:
                unknown.append(f)
        for k in known:
            if k["key"] in reported:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ["none"])
        cov.update(self.detail)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(unknown))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if unknown:
            os.makedirs(os.path.join(ROOT, "out"), exist_ok=True)
            rp = os.path.join(ROOT, "out", "%s-%s.json" % (self.prop, self.tier))
            with open(rp, "w") as f:
                json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier, failures=unknown[:50]), f, indent=1)
            for f in unknown[:5]:
                print("  " + str(f["what"])[:400])
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("%s %s: held (%d states, %d transitions, %d validated, %.1f s)" % (
            self.prop, self.tier, self.states, self.transitions, self.traces, time.time() - self.t0))
        return 0

    def clean(self):
        shutil.rmtree(self.dir, ignore_errors=True)
