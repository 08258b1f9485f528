"""Checks of models: save and load (C14), declaration (C16), generation leaves them alone (C17)."""
import json
from runner import NPROC, Broken
from checks_life import load, report

ASSUME = ["TLC, the JVM, PyPy, numpy, pandas and openpyxl are trusted"]


def run(ctx):
    ctx.assumptions = ASSUME
    if ctx.prop == "C15":
        return sheets(ctx)
    ctx.tlc("Model", cfg="ModelDeep.cfg" if ctx.deep else None)
    n = (5000 if ctx.deep else 500) if ctx.prop == "C17" else 12000 if ctx.deep else 1200
    printed, _ = ctx.tlc("Model", cfg="ModelWalk%s.cfg" % ctx.prop, workers=1, extra=("-simulate", "num=%d" % n, "-depth", "18"), timeout=3000)
    S = printed["SCRIPT"]
    base = ctx.path("model.ndjson")
    ctx.driver("rec_model.py", ctx.jdump("scripts.json", S), ctx.seed, NPROC, base, timeout=3000)
    T = load(base)
    slim = [dict(t, ev=[{k: v for k, v in e.items() if k != "msg"} for e in t["ev"]]) for t in T]
    printed, _ = ctx.tlc("ModelTrace", workers=1, timeout=3000, TRACE=ctx.jdump("trace.json", slim), JUDGE=ctx.prop)
    if not printed.get("STAT"):
        raise Broken("traces not read to the end")
    ctx.traces += len(T)
    ops = {}
    for t in T:
        for e in t["ev"]:
            k = "%s %s %s" % (e["op"], e["form"], e["res"])
            ops[k] = ops.get(k, 0) + 1
    ctx.detail["programs"] = dict(programs=len(T), operations=ops, **printed["STAT"][-1])
    ctx.sample(dict(program=[{k: e[k] for k in ("op", "form", "args", "res")} for e in T[0]["ev"]]))
    report(ctx, T, printed, "program")
    for f in printed.get("USERS", []):
        ctx.fail("program %d, step %d: users which differ compare equal" % (f["model"], f["line"]), key="users which differ compare equal",
                 program=T[f["model"]]["ev"][:f["line"]])
    if ctx.prop == "C14":
        twice(ctx)


def sheets(ctx):
    """C15: what sheets mean."""
    n = 12000 if ctx.deep else 1500
    printed, _ = ctx.tlc("Sheet", cfg="SheetWalk.cfg", workers=1, extra=("-simulate", "num=%d" % n, "-depth", "12"), timeout=3000)
    S = printed["SCRIPT"]
    # one sheet per form of a series, whose values are used day by day
    for how in ("json", "column", "two", "other", "absolute", "quoted", "odd"):
        for s in ("series1", "series2"):
            S.append([dict(user="a", n="", pref="", half=[], how=how, daily=1,
                           args=dict(power=s, flat="yes", func_time="1", window_1="[0,1440]"))])
    base = ctx.path("sheet.ndjson")
    ctx.driver("rec_sheet.py", ctx.jdump("scripts.json", S), ctx.seed, NPROC, base, timeout=3000)
    T = load(base)
    slim = [{k: v for k, v in t.items() if k != "msg"} for t in T]
    printed, _ = ctx.tlc("SheetTrace", workers=1, timeout=3000, TRACE=ctx.jdump("trace.json", slim))
    if not printed.get("STAT"):
        raise Broken("traces not read to the end")
    ctx.traces += len(T)
    hows = {}
    for t in T:
        for row in t["rows"]:
            hows[row["how"]] = hows.get(row["how"], 0) + 1
    ctx.detail["sheets"] = dict(sheets=len(T), power_formats=hows, **printed["STAT"][-1])
    ctx.sample(dict(sheet=T[0]["rows"], result=T[0]["res"]))
    for f in printed.get("FAIL", []):
        t = T[f["model"]]
        ctx.fail("sheet %d: %s %s" % (f["model"], f["clauses"], t.get("msg", "")), rows=t["rows"], users=t["users"])


def twice(ctx):
    """C14: a model which holds the same appliance twice, as separate declarations can make it."""
    out = ctx.driver("rec_twice.py")
    r = json.loads(out.strip().splitlines()[-1])
    ctx.traces += 1
    ctx.detail["twice"] = r
    if r["loaded"] != r["saved"]:
        ctx.fail("an appliance declared twice through separate windows() calls is saved %d times and loaded %d times" % (r["saved"], r["loaded"]),
                 key="declared twice through separate windows() calls: 2 -> 1" if (r["saved"], r["loaded"]) == (2, 1) else None, **r)
