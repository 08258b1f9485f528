"""Checks of use cases over their life: seeds (C11), days (C12), peak time range (C13)."""
import glob, json
from runner import NPROC

ASSUME = ["draws are made through Python's random module", "TLC, the JVM, PyPy, numpy and pandas are trusted"]


def load(base):
    T = []
    for f in sorted(glob.glob(base + "*.*")):
        T += [json.loads(line) for line in open(f)]
    T.sort(key=lambda t: t["m"])
    return T


def seeds(ctx):
    ctx.tlc("Seed")
    n = 1500 if ctx.deep else 300
    printed, _ = ctx.tlc("Seed", cfg="SeedScripts.cfg", workers=1, extra=("-simulate", "num=%d" % n, "-depth", "14"))
    S = printed["SCRIPT"]
    base = ctx.path("seed.ndjson")
    scripts = ctx.jdump("scripts.json", S)
    for half in (0, 1):  # in two interpreters which hash differently
        ctx.driver("rec_seed.py", scripts, ctx.seed, NPROC, "%s%d" % (base, half), half, PYTHONHASHSEED=half + 1)
    T = load(base)
    slim = [dict(m=t["m"], ev=[{k: v for k, v in e.items() if k != "msg"} for e in t["ev"]]) for t in T]
    printed, _ = ctx.tlc("SeedTrace", workers=1, TRACE=ctx.jdump("seedtrace.json", slim))
    ctx.traces += len(T)
    ctx.detail["programs"] = dict(scripts=len(T), events=sum(len(t["ev"]) for t in T), **printed["STAT"][-1])
    for t in T[:1]:
        ctx.sample(dict(program=t["ev"]))
    for f in printed.get("FAIL", []):
        t = [x for x in T if x["m"] == f["model"]][0]
        ctx.fail("program %d, step %d: %s %s" % (f["model"], f["line"], f["clauses"], t["ev"][f["line"] - 1].get("msg", "")),
                 program=t["ev"][:f["line"]])


def lives(ctx):
    printed, _ = ctx.tlc("Lifecycle", cfg="LifecycleDeep.cfg" if ctx.deep else None, workers=1)
    S = printed["SCRIPT"]
    # a script which another one continues adds nothing
    heads = {json.dumps(s[:-1]) for s in S}
    S = [s for s in S if json.dumps(s) not in heads]
    ctx.detail["cover"] = len(S)
    printed, _ = ctx.tlc("Lifecycle", cfg="LifecycleWalk.cfg", workers=1, extra=("-simulate", "num=%d" % (20000 if ctx.deep else 1500), "-depth", "20"))
    S += printed["SCRIPT"]
    follow(ctx, S, "LifeTrace.cfg", 8)
    # whole years, with their leap days
    printed, _ = ctx.tlc("Lifecycle", cfg="LifecycleYear.cfg", workers=1, extra=("-simulate", "num=%d" % (1500 if ctx.deep else 60), "-depth", "12"))
    follow(ctx, printed["SCRIPT"], "LifeTraceYear.cfg", 370)


def follow(ctx, S, cfg, series):
    base = ctx.path("life%d.ndjson" % series)
    ctx.driver("rec_life.py", ctx.jdump("scripts.json", S), ctx.seed, NPROC, base, series, timeout=3000)
    T = load(base)
    slim = [dict(t, ev=[{k: v for k, v in e.items() if k != "msg"} for e in t["ev"]]) for t in T]
    printed, _ = ctx.tlc("LifeTrace", cfg=cfg, workers=1, timeout=3000, TRACE=ctx.jdump("lifetrace.json", slim))
    ctx.traces += len(T)
    ctx.detail["lives%d" % series] = dict(scripts=len(T), events=sum(len(t["ev"]) for t in T))
    if series < 100:
        ctx.sample(dict(life=T[0]))
    for t in T:
        for e in t["ev"]:
            e["rows"] = [r[:20] for r in e["rows"]]
    report(ctx, T, printed, "life")


def peaks(ctx):
    ctx.tlc("Peak")
    printed, _ = ctx.tlc("Peak", cfg="PeakWalk.cfg", workers=1, extra=("-simulate", "num=%d" % (12000 if ctx.deep else 1200), "-depth", "18"))
    S = printed["SCRIPT"]
    base = ctx.path("peak.ndjson")
    ctx.driver("rec_peak.py", ctx.jdump("scripts.json", S), ctx.seed, NPROC, base, timeout=3000)
    T = load(base)
    slim = [dict(t, ev=[{k: v for k, v in e.items() if k != "msg"} for e in t["ev"]]) for t in T]
    printed, _ = ctx.tlc("PeakTrace", workers=1, timeout=3000, TRACE=ctx.jdump("peaktrace.json", slim))
    ctx.traces += len(T)
    ops = {}
    for t in T:
        for e in t["ev"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    ctx.detail["programs"] = dict(scripts=len(T), operations=ops)
    ctx.sample(dict(program=T[0]))
    report(ctx, T, printed, "program")


def report(ctx, T, printed, name):
    by = {t["m"]: t for t in T}
    for f in printed.get("FAIL", []):
        t = by[f["model"]]
        ctx.fail("%s %d, step %d: %s %s" % (name, f["model"], f["line"], f["clauses"], t["ev"][f["line"] - 1].get("msg", "")),
                 history=t["ev"][:f["line"]])


def run(ctx):
    ctx.assumptions = ASSUME
    {"C11": seeds, "C12": lives, "C13": peaks}[ctx.prop](ctx)
