"""Checks of whole communities (C09, C10, and the preferences of C06): Community.tla, ParallelPool.tla, CommunityTrace.tla."""
import glob, json, os
from runner import NPROC
import commcfgs

ASSUME = ["the community's appliances are told apart by the digits of their powers", "TLC, the JVM, PyPy, numpy and pandas are trusted",
          "scheduled workers stand in for multiprocessing.Pool when schedules are enumerated; real workers are sampled"]


def model(ctx):
    cs = commcfgs.comms(ctx.tier)
    ctx.tlc("MCCommunity", CFGS=ctx.jdump("comms.json", cs))
    ctx.detail["model_communities"] = len(cs)


def validate(ctx, label, base):
    T = []
    for f in sorted(glob.glob(base + ".*")):
        T += [json.loads(line) for line in open(f)]
    T.sort(key=lambda t: t["m"])
    slim = [{k: t[k] for k in ("m", "com", "res", "rows", "parts", "days")} for t in T]
    printed, _ = ctx.tlc("CommunityTrace", TRACE=ctx.jdump(label + ".json", slim), PROP=ctx.prop)
    ctx.traces += len(T)
    ctx.detail.setdefault("recorded_communities", {})[label] = dict(communities=len(T), days=sum(t["days"] for t in T))
    for t in T[:1]:
        ctx.sample(dict(kind=label, community=t["com"], first_row=(t["rows"] or [[[]]])[0][0][:6]))
    for f in printed.get("FAIL", []):
        t = [x for x in T if x["m"] == f["model"]][0]
        ctx.fail("%s community %d, day %d: %s %s" % (label, f["model"], f["line"], f["clauses"], t["msg"]), community=t["com"],
                 form=t.get("form"), report=f, schedule=t.get("schedule"), rows=t["rows"][:1])


def record(ctx, mode, n, timeout=700, **env):
    base = ctx.path(mode + ".ndjson")
    ctx.driver("rec_comm.py", mode, ctx.seed, n, NPROC if mode != "pool" else 2, base, timeout=timeout, **env)
    validate(ctx, mode, base)


def schedules(ctx):
    ctx.tlc("ParallelPool")
    ctx.tlc("ParallelPool", cfg="ParallelPoolFree.cfg")
    printed, _ = ctx.tlc("ParallelPool", cfg="ParallelPoolSched.cfg")
    S = printed["SCHED"]
    ctx.detail["schedules"] = len(S)
    p = ctx.jdump("schedules.json", S)
    base = ctx.path("sched.ndjson")
    ctx.driver("rec_comm.py", "sched", ctx.seed, len(S), NPROC, base, SCHEDULES=p)
    validate(ctx, "sched", base)


def run(ctx):
    ctx.assumptions = ASSUME
    if ctx.prop == "C09":
        model(ctx)
        record(ctx, "seq", 2500 if ctx.deep else 250)
    else:
        schedules(ctx)
        record(ctx, "fake", 1500 if ctx.deep else 120)
        record(ctx, "pool", 120 if ctx.deep else 20)
