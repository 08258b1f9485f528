"""Checks of single appliance days (C01-C08, C20): ApplianceDay.tla, OutcomeConf.tla, DayTrace.tla."""
import glob, json
from runner import NPROC
import daycfgs, checks_comm

ASSUME = ["draws are made through Python's random module", "powers are compared in whole milliwatts",
          "TLC, the JVM, PyPy, numpy and pandas are trusted"]
FAMILIES = {"C01": ("windows", "flat"), "C02": ("budget",), "C03": ("events",), "C04": ("units",), "C05": ("units",),
            "C06": ("skip",), "C07": ("flat",), "C08": ("cycles",), "C20": ("errors", "budget")}


def model(ctx, fams):
    """L1: the specification satisfies its invariants and the closed-form rules accept all it reaches."""
    F = daycfgs.families(ctx.tier)
    for fam in fams:
        cs = F[fam]
        p = ctx.jdump("m_%s.json" % fam, cs)
        ctx.tlc("MCDay", CFGS=p)
        ctx.detail.setdefault("model_configurations", {})[fam] = len(cs)


def outcomes(ctx, fams, leaves):
    """L2: the outcomes of the real code and those of the model are the same on small configurations."""
    F = daycfgs.families(ctx.tier)
    for fam in fams:
        cs = daycfgs.placed(F[fam], ctx.seed)
        for k, c in enumerate(cs, 1):
            c["k"] = k
        p = ctx.jdump("c_%s.json" % fam, cs)
        o = ctx.path("o_%s.json" % fam)
        ctx.driver("day_out.py", p, o, leaves, NPROC)
        impl = json.load(open(o))
        printed, _ = ctx.tlc("OutcomeConf", workers=1, CFGS=p, IMPL=o, PROP=ctx.prop)
        stat = printed["STAT"][0]
        n = sum(r["leaves"] for r in impl)
        ctx.traces += n
        ctx.detail.setdefault("outcomes", {})[fam] = dict(
            stat, executions=n, completely_enumerated=sum(r["complete"] for r in impl))
        ctx.sample(dict(outcome=fam, configuration={k: cs[0][k] for k in ("win", "rv", "tlo", "thi", "fc", "num")},
                        outcomes_of_the_code=impl[0]["out"][:3]))
        for f in printed.get("FAIL", []):
            k = f["k"]
            ctx.fail("outcomes of configuration %d of %s: %s" % (k, fam, f["clauses"]), configuration=cs[k - 1], report=f,
                     messages=impl[k - 1]["msgs"])


def days(ctx, n):
    """L3: recorded days of random models are days the specification allows."""
    base = ctx.path("days.ndjson")
    ctx.driver("rec_day.py", ctx.prop, ctx.seed, n, NPROC, base)
    T, msgs, ndays = {}, {}, 0
    for f in sorted(glob.glob(base + ".*")):
        for line in open(f):
            e = json.loads(line)
            if e["ev"] == "model":
                T[e["m"]] = dict(m=e["m"], decl=e["decl"], ord=e["ord"], days=[])
            else:
                t = T[e["m"]]
                if e["msg"]:
                    msgs[(e["m"], len(t["days"]) + 1)] = e["msg"]
                t["days"].append({k: e[k] for k in ("d", "res", "runs", "pk", "f", "z")})
                ndays += 1
    T = [T[k] for k in sorted(T)]
    printed, _ = ctx.tlc("DayTrace", TRACE=ctx.jdump("days.json", T), PROP=ctx.prop)
    ctx.traces += ndays
    ctx.detail["recorded_days"] = ctx.detail.get("recorded_days", 0) + ndays
    ctx.detail["recorded_models"] = ctx.detail.get("recorded_models", 0) + len(T)
    for t in T[:2]:
        ctx.sample(dict(recorded_model=t["decl"], first_day=t["days"][0] if t["days"] else None))
    for f in printed.get("FAIL", []):
        t = [x for x in T if x["m"] == f["model"]][0]
        ctx.fail("recorded day %d of model %d: %s %s" % (f["line"], f["model"], f["clauses"], msgs.get((f["model"], f["line"]), "")),
                 decl=t["decl"], ord=t["ord"], day=t["days"][f["line"] - 1])


def run(ctx):
    ctx.assumptions = ASSUME
    fams = FAMILIES[ctx.prop]
    model(ctx, fams)
    outcomes(ctx, fams, 12000 if ctx.deep else (600 if ctx.prop in ("C02", "C20") else 900))
    days(ctx, 6000 if ctx.deep else 500)
    if ctx.prop == "C06":
        checks_comm.record(ctx, "seq", 1500 if ctx.deep else 100)
