"""L2: every outcome the real code can produce for small configurations (decision tree of its draws).

usage: day_out.py CFGS.json OUT.json MAXLEAVES NPROC
"""
import sys, json
from env import *

TV = {}


def build(c):
    """One user with one appliance, as described by the configuration."""
    y = c["py"]
    u = User("u", 1)
    kw = dict(number=c["num"], power=c["p"] / 1000.0, num_windows=y["nw"], func_time=y["ft"],
              time_fraction_random_variability=y["tv"], func_cycle=c["fc"], fixed="yes" if c["fixed"] else "no",
              fixed_cycle=len(c["cyc"]), continuous_duty_cycle=1 if c["cont"] else 0, occasional_use=y["occ"],
              flat="yes" if c["flat"] else "no", thermal_p_var=c["th"] / 100.0, pref_index=0, wd_we_type=y.get("wd", 2),
              name="a", random_var_w=y["rw"])
    for i in range(y["nw"]):
        kw["window_%d" % (i + 1)] = list(c["win"][i])
    for i, q in enumerate(c["cyc"]):
        n = i + 1
        kw["p_%d1" % n] = q["pa"] / 1000.0
        kw["p_%d2" % n] = q["pb"] / 1000.0
        kw["t_%d1" % n] = q["t1"]
        kw["t_%d2" % n] = q["t2"]
        kw["r_c%d" % n] = q["rc"]
        kw["cw%d1" % n] = list(q["w"][0])
        if len(q["w"]) > 1:
            kw["cw%d2" % n] = list(q["w"][1])
    app = u.add_appliance(**kw)
    uc = UseCase(users=[u], date_start="2023-01-02", date_end="2023-01-02")
    uc.peak_time_range = np.arange(c["pk"][0], c["pk"][1] + 1)
    return uc, u, app


def enumerate_cfg(c, maxleaves):
    res = {"out": [], "leaves": 0, "complete": True, "errors": []}
    seen = set()
    try:
        with guard(60):
            rng.plain(1)
            uc, u, app = build(c)
    except Exception as e:
        res["errors"].append(dict(kind="crash", **describe(e)))
        return res
    tree = rng.Tree(c["py"].get("grid", 2))
    errs = {}
    import random

    sampler = None
    while True:
        rng.set_mode(tree if sampler is None else sampler)
        tree.begin()
        try:
            with guard(120):
                prof = uc.generate_daily_load_profiles(flat=False)
            shape = np.asarray(prof).shape
            runs, ok = runs_of(np.asarray(prof)[0]) if shape == (1, 1440) else ([], False)
            if not ok:
                errs.setdefault("bad", "malformed profile")
            else:
                seen.add(json.dumps(merged(runs)))
        except RuntimeError as e:
            if "draws are not reproducible" in str(e):
                sampler = rng.Extreme(7, 0.3)
                res["complete"] = False
            else:
                errs.setdefault("crash", "%s %s" % (type(e).__name__, str(e)[:150]))
        except Exception as e:
            errs.setdefault(error_kind(e), "%s %s" % (type(e).__name__, str(e)[:150]))
        res["leaves"] += 1
        if sampler is None:
            if not tree.advance():
                break
        if sampler is None and res["leaves"] >= maxleaves // 2:
            # too many outcomes: the rest of the effort goes into random ones
            res["complete"] = False
            sampler = rng.Extreme(7, 0.3)
        if res["leaves"] >= maxleaves:
            break
    rng.plain(1)
    res["out"] = [json.loads(x) for x in sorted(seen)]
    res["errors"] = [dict(kind=k, msg=v) for k, v in errs.items()]
    return res


def main():
    cfgs = json.load(open(sys.argv[1]))
    maxleaves = int(sys.argv[3])
    nproc = int(sys.argv[4])

    def work(i, part):
        res = []
        for k, c in part:
            r = enumerate_cfg(c, maxleaves)
            r["k"] = k
            res.append(r)
        with open("%s.%d" % (sys.argv[2], i), "w") as f:
            json.dump(res, f)

    bad = shards(nproc, work, list(enumerate(cfgs, 1)))
    allr = []
    import glob

    for f in glob.glob(sys.argv[2] + ".*"):
        allr += json.load(open(f))
        os.unlink(f)
    allr.sort(key=lambda r: r["k"])
    for r in allr:
        r["msgs"] = r["errors"]
        r["errors"] = [e["kind"] for e in r["errors"]]
    with open(sys.argv[2], "w") as f:
        json.dump(allr, f)
    sys.exit(1 if bad else 0)


main()
