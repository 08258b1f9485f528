"""Checks of the parts around the generation: command line (C18), converter (C19), results (C21)."""
import json
from runner import NPROC, Broken
from checks_life import load

ASSUME = ["TLC, the JVM, PyPy, numpy, pandas, matplotlib and openpyxl are trusted"]


def simulate(ctx, module, cfg, num, depth):
    printed, _ = ctx.tlc(module, cfg=cfg, workers=1, extra=("-simulate", "num=%d" % num, "-depth", str(depth)), timeout=3000)
    S = printed["SCRIPT"]
    return [json.loads(s) for s in dict.fromkeys(json.dumps(s) for s in S)]


def commands(ctx):
    ctx.tlc("Cli")
    S = simulate(ctx, "Cli", "CliWalk.cfg", 8000 if ctx.deep else 600, 3)
    M = simulate(ctx, "Cli", "CliMonths.cfg", 400 if ctx.deep else 30, 3)
    # whole years are long, they are spread evenly over the processes
    S.sort(key=lambda c: (bool(c["years"]) and not c["n"], bool(c["years"])), reverse=True)
    S = M + S
    base = ctx.path("cli.ndjson")
    ctx.driver("rec_cli.py", ctx.jdump("scripts.json", S), ctx.seed, NPROC, base, ctx.path("runs"), timeout=5000)
    T = load(base)
    if len(T) != len(S):
        raise Broken("%d of %d commands recorded" % (len(T), len(S)))
    slim = [{k: v for k, v in t.items() if k not in ("msg", "argv")} for t in T]
    printed, _ = ctx.tlc("CliTrace", workers=1, timeout=3000, TRACE=ctx.jdump("trace.json", slim))
    if not printed.get("STAT"):
        raise Broken("traces not read to the end")
    ctx.traces += len(T)
    ctx.detail["commands"] = dict(commands=len(T), simulations=sum(len(t["sims"]) for t in T), days=sum(s["count"] for t in T for s in t["sims"]), **printed["STAT"][-1])
    ctx.sample(dict(argv=T[-1]["argv"], result=T[-1]["res"], simulations=T[-1]["sims"]))
    for f in printed.get("FAIL", []):
        t = T[f["model"]]
        ctx.fail("command %d: %s %s %s" % (f["model"], " ".join(t["argv"]), f["clauses"], t.get("msg", "")),
                 command=t["c"], sims=t["sims"], extra=t["extra"], files=[dict(x, rows=x["rows"][:20]) for x in t["files"]], year=t["year"][:3])


def conversions(ctx):
    ctx.tlc("Convert")
    S = simulate(ctx, "Convert", "ConvertWalk.cfg", 8000 if ctx.deep else 700, 12)
    base = ctx.path("convert.ndjson")
    ctx.driver("rec_convert.py", ctx.jdump("scripts.json", S), ctx.seed, NPROC, base, ctx.path("runs"), timeout=5000)
    T = load(base)
    if len(T) != len(S):
        raise Broken("%d of %d programs recorded" % (len(T), len(S)))
    slim = [dict(t, ev=[{k: v for k, v in e.items() if k != "msg"} for e in t["ev"]]) for t in T]
    printed, _ = ctx.tlc("ConvertTrace", workers=1, timeout=3000, TRACE=ctx.jdump("trace.json", slim))
    if not printed.get("STAT"):
        raise Broken("traces not read to the end")
    ctx.traces += len(T)
    ctx.detail["programs"] = dict(programs=len(T), inputs=sum(len(t["fs"]) for t in T), conversions=sum(len(e["which"]) for t in T for e in t["ev"]),
                                  altered=sum(sum(e["altered"]) for t in T for e in t["ev"]))
    ctx.sample(dict(conversions=[{k: e[k] for k in ("which", "out", "suffix", "keep", "how", "altered", "res")} for e in T[0]["ev"]]))
    for f in printed.get("FAIL", []):
        t = T[f["model"]]
        e = t["ev"][f["line"] - 1]
        ctx.fail("program %d, conversion %d: %s %s" % (f["model"], f["line"], f["clauses"], e.get("msg", "")), files=t["fs"], conversions=t["ev"][:f["line"]])


def tables(ctx):
    ctx.tlc("Results")
    S = simulate(ctx, "Results", "ResultsWalk.cfg", 8000 if ctx.deep else 700, 18)
    base = ctx.path("results.ndjson")
    ctx.driver("rec_results.py", ctx.jdump("scripts.json", S), ctx.seed, NPROC, base, timeout=5000)
    T = load(base)
    if len(T) != len(S):
        raise Broken("%d of %d programs recorded" % (len(T), len(S)))
    slim = [dict(t, ev=[{k: v for k, v in e.items() if k != "msg"} for e in t["ev"]]) for t in T]
    printed, _ = ctx.tlc("ResultsTrace", workers=1, timeout=3000, TRACE=ctx.jdump("trace.json", slim))
    if not printed.get("STAT"):
        raise Broken("traces not read to the end")
    ctx.traces += len(T)
    ops = {}
    for t in T:
        for e in t["ev"]:
            k = "%s %s" % (e["op"], e["res"])
            ops[k] = ops.get(k, 0) + 1
    ctx.detail["programs"] = dict(programs=len(T), operations=ops)
    ctx.sample(dict(program=[{k: e[k] for k in ("op", "h", "f", "rule", "cs", "is", "res")} for e in T[0]["ev"]]))
    for f in printed.get("FAIL", []):
        t = T[f["model"]]
        e = t["ev"][f["line"] - 1]
        ctx.fail("program %d, operation %d: %s %s" % (f["model"], f["line"], f["clauses"], e.get("msg", "")), operations=t["ev"][max(0, f["line"] - 2):f["line"]])


def run(ctx):
    ctx.assumptions = ASSUME
    {"C18": commands, "C19": conversions, "C21": tables}[ctx.prop](ctx)
