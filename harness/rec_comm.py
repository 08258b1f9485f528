"""Whole communities recorded from the real code, for CommunityTrace.tla.

usage: rec_comm.py MODE SEED NMODELS NPROC OUT
MODE: seq | pool (real workers) | fake (scheduled workers) | sched (the schedules of ParallelPool.tla, in $SCHEDULES)
"""
import sys, json, random as R, datetime
from env import *
import fakepool

BASE = {0: 1000}


def make(r, mode, kind):
    """kind: plain | pref | calendar"""
    base = 64
    users, apps = [], []
    nu = r.choice((1, 2, 2, 3))
    allflat = r.random() < 0.25
    maxapps = 5
    for u in range(1, nu + 1):
        P = r.choice((0, 0, 2, 3)) if kind != "pref" else r.choice((1, 2, 3, 3))
        n = r.choice((1, 2, 3, 4, 5, 6, 10, 12, 20)) if kind != "pref" else r.choice((1, 3, 10, 12))
        users.append(dict(n=n, pref=P))
        na = min(maxapps - len(apps), r.choice((1, 2, 3)) if kind != "pref" else r.choice((2, 3, 3)))
        if nu > 1 and u < nu:
            na = min(na, 2)
        for k in range(max(1, na) if len(apps) < maxapps else 0):
            flat = allflat or r.random() < (0.4 if kind != "pref" else 0.75)
            nw = r.choice((1, 1, 2, 3))
            cuts = sorted(r.sample(range(0, 1441), 2 * nw))
            win = [[cuts[2 * i], cuts[2 * i + 1]] for i in range(nw)]
            if r.random() < 0.4:
                a = r.randrange(0, 1340)
                win = [[a, a + 100]]
            T = sum(b - a for a, b in win)
            if T < 10:
                win = [[300, 420]]
                T = 120
            x = dict(u=u, num=r.choice((1, 1, 2)), flat=flat, win=win, ft=r.choice((1, T // 4 + 1, T // 3, T // 2, T)), occ=1000, wd=2,
                     pref=0, pw=[1], rv=0)
            if not flat and r.random() < 0.25:
                # short, in a wide window
                x["ft"] = r.choice((1, 1, 2))
                x["win"] = [[r.randrange(0, 100), r.randrange(1300, 1441)]]
            if flat and r.random() < 0.5:
                a = r.randrange(0, 1441 - 120)
                b = a + r.choice((120, 100))
                # x.rv minutes are this share of the window's length
                x["rv"] = r.choice((20, 25, 40))
                x["win"] = [[a, b]]
                x["ft"] = 30
            if kind == "pref":
                x["num"] = 1
                x["pref"] = (len([y for y in apps if y["u"] == u]) % max(1, P)) + 1 if r.random() < 0.9 else r.choice((0, 1, 2, 3))
                if r.random() < 0.06:
                    x["pref"] = P + 1 if P < 3 else 3
            else:
                if P and r.random() < 0.5:
                    x["pref"] = r.choice((1, 2, 3))
                if r.random() < 0.25:
                    x["occ"] = r.choice((0, 500, 500))
                if r.random() < 0.2:
                    x["wd"] = r.choice((0, 1))
                if r.random() < 0.05:
                    x["ft"] = 0
            apps.append(x)
    return users, apps


def build(users, apps, start, ndays, parallel, seed=None):
    us = [User("user %d" % (k + 1), x["n"], x["pref"]) for k, x in enumerate(users)]
    end = start + datetime.timedelta(days=ndays - 1)
    for j, x in enumerate(apps):
        unit = 1000.0 * 64 ** j / 1000.0  # watts
        kw = dict(number=x["num"], num_windows=len(x["win"]), func_time=x["ft"], fixed="yes", flat="yes" if x["flat"] else "no",
                  occasional_use=x["occ"] / 1000.0, pref_index=x["pref"], wd_we_type=x["wd"], name="app %d" % j)
        kw["power"] = unit if len(x["pw"]) == 1 else pd.DataFrame([unit * v for v in x["pw"]] + [unit] * (366 - len(x["pw"])))
        if x["rv"]:
            kw["random_var_w"] = (x["rv"] + 0.5) / (x["win"][0][1] - x["win"][0][0])
        for i, w in enumerate(x["win"]):
            kw["window_%d" % (i + 1)] = list(w)
        us[x["u"] - 1].add_appliance(**kw)
    uc = UseCase(users=us, date_start=start.isoformat(), date_end=end.isoformat(), parallel_processing=parallel, random_seed=seed)
    return uc, us


def vec_runs(row, k):
    """Runs [s, e, digits] of a profile: base 64 digits above a marker digit of base 1000."""
    a = np.asarray(row, dtype=float)
    if a.shape != (1440,) or not np.isfinite(a).all() or (a < 0).any() or (a > 64.0 ** k).any():
        return [], False
    m = np.rint(a * 1000.0)
    if (np.abs(m - a * 1000.0) > 0.2).any():
        return [], False
    cut = np.flatnonzero(np.diff(m)) + 1
    b = [0] + cut.tolist() + [1440]
    runs = []
    for s, e in zip(b[:-1], b[1:]):
        v = int(m[s])
        if v == 0:
            continue
        vec = [v % 1000]
        v //= 1000
        for _ in range(k):
            vec.append(v % 64)
            v //= 64
        runs.append([s, e, vec])
    return runs, True


SCHEDULES = json.load(open(os.environ["SCHEDULES"])) if "SCHEDULES" in os.environ else []


def sixteen(r):
    """Two days, two single users with four appliances: the 16 tasks of ParallelPoolSched."""
    users = [dict(n=2, pref=2)]
    apps = []
    for j in range(4):
        a = r.randrange(0, 1300)
        x = dict(u=1, num=1, flat=j % 2 == 0, win=[[a, a + r.choice((30, 100, 140))]], ft=r.choice((1, 10, 20)), occ=1000, wd=2, pref=0, pw=[1, 2], rv=0)
        if j >= 2:
            x["pref"] = j - 1
            x["pw"] = [1]
        apps.append(x)
    return users, apps


def record(mode, seed, m, out):
    r = R.Random("%s%d-%d" % (mode, seed, m))
    kind = r.choice(("plain", "plain", "pref", "calendar"))
    if mode == "sched":
        kind = "sched"
        users, apps = sixteen(r)
    else:
        users, apps = make(r, mode, kind)
    ndays = r.choice((2, 3, 5, 7)) if kind != "calendar" else r.choice((7, 9))
    if kind == "pref":
        ndays = 7
    if mode == "pool":
        ndays = min(ndays, 4)
    if mode == "sched":
        ndays = 2
        users[0]["n"] = 2
    if kind == "calendar":
        for x in apps:
            x["pw"] = [i + 1 for i in range(ndays)]
            x["num"] = 1
    for x in apps:
        if x["num"] * max(x["pw"]) * users[x["u"] - 1]["n"] > 63:
            x["num"] = 1
            if max(x["pw"]) * users[x["u"] - 1]["n"] > 63:
                users[x["u"] - 1]["n"] = max(1, 63 // max(x["pw"]))
    if sum(users[x["u"] - 1]["n"] for x in apps) > 900:
        return
    start = datetime.date(2023, 1, 1) + datetime.timedelta(days=r.randrange(0, 1500))
    three = lambda w: [list(x) for x in w] + [[0, 0]] * (3 - len(w))
    com = dict(day=1440, ord=start.toordinal(), users=users, apps=[dict(x, win=three(x["win"])) for x in apps])
    rec = dict(m=m, com=com, res="ok", rows=[], parts=[], msg="", days=ndays)
    rng.plain(seed * 77 + m)
    uses = r.choice(("rows", "flat", "cases")) if mode == "seq" else r.choice(("rows", "flat"))
    rec["form"] = uses
    k = len(apps)
    try:
        with guard(120):
            uc, us = build(users, apps, start, ndays, mode != "seq")
            if mode == "fake":
                fakepool.install(r.randrange(10 ** 6))
            if mode == "sched":
                rec["schedule"] = SCHEDULES[m]
                fakepool.install(r.randrange(10 ** 6), SCHEDULES[m], 2)
            results = []
            if uses == "cases":
                pl = uc.generate_daily_load_profiles(cases=["a", "b"])
                df = pl.DataFrame
                for c in df.columns:
                    results.append(df[c].values)
                if len(df.columns) != 2 or len(df.index) != ndays * 1440 or df.index[0] != pd.Timestamp(start):
                    rec["res"] = "malformed"
            else:
                results.append(np.asarray(uc.generate_daily_load_profiles(flat=uses == "flat")))
        for p in results:
            p = np.asarray(p)
            want = (ndays, 1440) if uses == "rows" else (ndays * 1440,)
            if p.shape != want:
                rec["res"] = "malformed"
                rec["msg"] = "shape %s" % (p.shape,)
                break
            rows = []
            for d in range(ndays):
                row, ok = vec_runs(p[d] if uses == "rows" else p[d * 1440:(d + 1) * 1440], k)
                if not ok:
                    rec["res"] = "malformed"
                rows.append(row)
            rec["rows"].append(rows)
        if mode == "seq" and rec["res"] == "ok":
            for u in us:
                part, ok = vec_runs(u.load, k)
                if not ok:
                    rec["res"] = "malformed"
                rec["parts"].append(part)
    except Exception as e:
        rec["res"] = error_kind(e)
        if rec["res"] == "fit":
            rec["res"] = "crash"
        rec["msg"] = "%s %s" % (type(e).__name__, str(e)[:200])
        rec["rows"] = []
    finally:
        fakepool.remove()
    out(rec)


def main():
    mode, seed, n, nproc, path = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]

    def work(i, part):
        with open("%s.%d" % (path, i), "w") as f:
            for m in part:
                record(mode, seed, m, lambda e: f.write(json.dumps(e) + "\n"))

    bad = shards(nproc, work, list(range(n)))
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
