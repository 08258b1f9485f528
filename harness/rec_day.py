"""L3: days of single appliances recorded from the real code.

usage: rec_day.py PROP SEED NMODELS NPROC OUT.ndjson
"""
import sys, json, random as R, datetime
from env import *
import gen


def decl_rec(d):
    """Declaration as written to the trace."""
    win = [list(w) for w in d["win"]] + [[0, 0]] * (3 - len(d["win"]))
    cyc = []
    for q in d["cyc"]:
        w = q["w"] if q["w"] is not None else [x for x in win[:2]]
        cyc.append(dict(w=w, t1=q["t1"], p1=q["p1"], t2=q["t2"], p2=q["p2"], rc=q["rc"]))
    return dict(win=win, rw=d["rw"], ft=d["ft"], tv=d["tv"], fc=d["fc"], num=d["num"], fixed=d["fixed"], flat=d["flat"],
                p=d["p"], th=d["th"], occ=d["occ"], wd=d["wd"], cyc=cyc, cont=d["cont"])


def make(prop, r):
    d = gen.appliance(r, prop)
    if prop == "C06":
        d["occ"] = r.choice((0, 200, 300, 500, 700, 950, 1000, 1000))
        d["wd"] = r.choice((0, 1, 2))
        if r.random() < 0.12:
            d["ft"] = 0
    if prop == "C20":
        corner(r, d)
    return d


def corner(r, d):
    """Corner values of the documented ranges."""
    for _ in range(r.choice((1, 2, 3))):
        k = r.choice(("num0", "ft0", "p0", "fc", "fc0", "th1", "tv1", "rw1", "occ0", "win", "one", "cyc", "flat", "ftmax", "cyc0", "bigfc"))
        if k == "num0":
            d["num"] = 0
        elif k == "ft0":
            d["ft"] = 0
        elif k == "p0":
            d["p"] = [0]
        elif k == "fc":
            d["fc"] = r.choice((d["ft"], 1440, 60, 200))
        elif k == "bigfc":
            t = sum(b - a for a, b in d["win"])
            d["fc"] = max(0, (99 * t) // 100 + r.choice((-1, 0, 1)))
        elif k == "fc0":
            d["fc"] = 0
        elif k == "th1":
            d["th"] = r.choice((1, 50, 100))
        elif k == "tv1":
            d["tv"] = 100
        elif k == "rw1":
            d["rw"] = r.choice((50, 90, 100))
        elif k == "occ0":
            d["occ"] = 0
        elif k == "win":
            a = r.randrange(0, 1439)
            d["win"] = r.choice(([[0, 1440]], [[a, a + 1]], [[1439, 1440]], [[0, 1]], [[a, a]], [[0, 1440], [0, 1440], [0, 1440]], [[700, 1440], [0, 700]]))
            d["ft"] = min(d["ft"], sum(y - x for x, y in d["win"]))
            for q in d["cyc"]:
                q["w"] = [list(d["win"][0])]
        elif k == "one":
            d["ft"], d["fc"] = min(1, sum(y - x for x, y in d["win"])), 1
        elif k == "cyc":
            if not d["cyc"]:
                gen.cycles(r, d)
        elif k == "cyc0":
            if not d["cyc"]:
                gen.cycles(r, d)
            for q in d["cyc"]:
                if r.random() < 0.5:
                    q["t1"], q["t2"] = r.choice(((0, 3), (3, 0), (0, 0), (1, 1)))
        elif k == "flat":
            d["flat"] = True
            d["cyc"], d["nc"] = [], 0
        elif k == "ftmax":
            d["ft"] = sum(y - x for x, y in d["win"])
    d["ft"] = min(d["ft"], sum(y - x for x, y in d["win"]))


def record(prop, seed, m, out):
    r = R.Random(seed * 1000003 + m)
    d = make(prop, r)
    ndays = r.choice((3, 5, 7)) if prop not in ("C20",) else 3
    start = datetime.date(2023, 1, 1) + datetime.timedelta(days=r.randrange(0, 1500))
    ord0 = start.toordinal()
    rec = decl_rec(d)
    n = len(d["p"])
    rec["p"] = d["p"][:ndays] if n > 1 else d["p"]
    out(dict(ev="model", m=m, decl=rec, ord=ord0))

    def day(k, res, runs=(), pk=(0, 0), f=-1, z=-9999, msg=""):
        out(dict(ev="day", m=m, d=k, res=res, runs=list(runs), pk=list(pk), f=f, z=z, msg=msg))

    rng.plain(seed + m)
    try:
        with guard(60):
            end = start + datetime.timedelta(days=ndays - 1)
            u = User("u", 1)
            uc = UseCase(users=[u], date_start=start.isoformat())
            if n == 1 or n >= 366:
                app = u.add_appliance(**gen.kwargs(d, np, pd))
                uc.date_end = end.isoformat()
                uc.initialize()
            else:
                uc.date_end = end.isoformat()
                app = u.add_appliance(**gen.kwargs(d, np, pd))
                uc.initialize()
    except Exception as e:
        day(0, error_kind(e), msg="build: %s %s" % (type(e).__name__, str(e)[:150]))
        return
    hull = [min(w[0] for w in d["win"]), max(w[1] for w in d["win"])]
    reps = 2 if prop == "C05" else 1
    for rep in range(reps):
        f, z = -1, -9999
        if prop == "C05" or (prop in ("C04", "C02") and r.random() < 0.2):
            if prop == "C05" and r.random() < 0.85:
                f = r.choice((10, 30, 50, 130, 370, 620, 790, 950, 990))
                z = r.choice((-310, -170, -130, -90, -30, 30, 70, 110, 150, 190, 310))
        if prop == "C06" and r.random() < 0.6:
            f = r.choice((50, 199, 200, 201, 299, 301, 499, 501, 701, 949, 951, 990))
        # a peak time range placed around the windows
        if prop == "C05" or r.random() < 0.3:
            a = r.randrange(hull[0] - 5, hull[1] + 5)
            b = a + r.choice((0, 1, 5, 30, 120))
            uc.peak_time_range = np.arange(a, b + 1)
        pk = (int(uc.peak_time_range[0]), int(uc.peak_time_range[-1])) if len(uc.peak_time_range) else (2000, 1999)
        if f >= 0:
            rng.set_mode(rng.Forced(seed + m, f / 1000.0, [z / 100.0] if z > -9999 else None))
        elif r.random() < 0.5:
            rng.set_mode(rng.Extreme(seed + m, r.choice((0.2, 0.5, 0.8))))
        else:
            rng.plain(seed * 7 + m)
        try:
            with guard(60):
                prof = np.asarray(uc.generate_daily_load_profiles(flat=False))
            if prof.shape != (ndays, 1440):
                day(0, "malformed", msg="shape %s" % (prof.shape,))
            else:
                for k in range(ndays):
                    runs, ok = runs_of(prof[k])
                    day(k, "ok" if ok else "malformed", merged(runs), pk, f, z)
        except Exception as e:
            day(0, error_kind(e), (), pk, f, z, "%s %s" % (type(e).__name__, str(e)[:150]))
        rng.plain(seed + m)


def main():
    prop, seed, n, nproc, path = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]

    def work(i, part):
        with open("%s.%d" % (path, i), "w") as f:
            for m in part:
                record(prop, seed, m, lambda e: f.write(json.dumps(e) + "\n"))

    bad = shards(nproc, work, list(range(n)))
    sys.exit(1 if bad else 0)


main()
