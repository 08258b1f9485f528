"""Lives of use cases from Lifecycle.tla carried out with the real code.

usage: rec_life.py SCRIPTS.json SEED NPROC OUT SERIES
"""
import datetime, builtins
from env import *
import fakepool

SERIES = int(sys.argv[5])  # days which have a value of the power series
# days around which calendars have their peculiarities
EPOCHS = ["2024-02-25", "2023-12-24", "2000-02-23", "2023-02-24", "2023-10-26", "2021-12-28", "2023-06-01"]


def build(kw):
    us = User("u", 1)
    a = dict(number=1, num_windows=1, func_time=10, flat="yes")
    us.add_appliance(name="weekday", power=1000, window_1=[0, 10], wd_we_type=0, **a)
    us.add_appliance(name="weekend", power=2000, window_1=[20, 30], wd_we_type=1, **a)
    us.add_appliance(name="series", power=pd.DataFrame([float(i + 1) for i in range(SERIES)]), window_1=[40, 50], **a)
    us.add_appliance(name="events", number=1, num_windows=1, func_time=5, power=pd.DataFrame([float(i + 1) for i in range(SERIES)]), window_1=[60, 70])
    return UseCase(users=[us], **kw)


def row(r):
    r = np.asarray(r)
    z = np.zeros(1440)
    z[0:10], z[20:30], z[40:50], z[60:70] = r[0], r[20], r[40], r[60:70]
    on = np.unique(r[60:70][r[60:70] > 0.01])
    if r.shape != (1440,) or (r != z).any() or r[0] not in (0, 1000) or r[20] not in (0, 2000) or r[40] != int(r[40]) or len(on) != 1 or on[0] != int(on[0]):
        return [9, 9, 9, 9]
    return [int(r[0]) // 1000, int(r[20]) // 2000, int(r[40]), int(on[0])]


def table(p, form):
    p = np.asarray(p)
    if form == "rows":
        return [row(r) for r in p] if p.ndim == 2 else [[8, 8, 8, 8]]
    if p.ndim != 1 or len(p) % 1440:
        return [[8, 8, 8, 8]]
    return [row(p[i:i + 1440]) for i in range(0, len(p), 1440)]


def play(script, m, seed, out):
    d1 = datetime.datetime.fromisoformat(EPOCHS[(m * 7919 + seed) % len(EPOCHS)])
    style = m % 4
    limit = 60 if SERIES < 100 else 240
    today = datetime.date.today()
    day = lambda k: d1 + datetime.timedelta(days=k - 1)
    # dates are given as text, datetime or timestamps
    give = lambda k: None if k == 0 else (day(k).date().isoformat() if style == 0 else day(k) if style == 1 else pd.Timestamp(day(k)) if style == 2 else day(k).isoformat())
    num = lambda t: (pd.Timestamp(t) - pd.Timestamp(d1)).days + 1
    rng.plain(seed * 1000 + m)
    rec = dict(m=m, w1=d1.weekday(), today=num(today), ev=[])
    uc = None
    for k, o in enumerate(script):
        if o["op"] == "over":
            break
        e = dict(op=o["op"], a=o["a"], b=o["b"], n=o["n"], f=o["f"], res="ok", init=False, first=0, count=0, nd=0, ifirst=0, ilen=0, rows=[])
        rows = []
        try:
            with guard(limit):
                op = o["op"]
                if op == "new":
                    uc = build(dict(date_start=give(o["a"]), date_end=give(o["b"])))
                elif op == "start":
                    uc.date_start = give(o["a"])
                elif op == "end":
                    uc.date_end = give(o["b"])
                elif op == "init":
                    kw = {}
                    if o["n"]:
                        kw["num_days"] = o["n"]
                    if o["f"]:
                        kw["force"] = True
                    uc.initialize(**kw)
                elif op == "num":
                    uc.num_days
                elif op == "index":
                    uc.datetimeindex
                elif op == "cases":
                    df = uc.generate_daily_load_profiles(cases=["a", "b"]).DataFrame
                    if not df.index.equals(uc.datetimeindex):
                        e["res"] = "malformed"
                    rows = [table(df[c].values, "flat") for c in df.columns]
                else:
                    kw = dict(flat=op == "flat" or (op == "par" and m % 2 == 0))
                    if op == "days":
                        kw["days"] = pd.date_range(day(o["a"]), periods=o["n"])
                    if op == "par":
                        uc.parallel_processing = True
                        fakepool.install(seed * 100000 + m * 100 + k)
                    try:
                        p = uc.generate_daily_load_profiles(**kw)
                    finally:
                        uc.parallel_processing = False
                        fakepool.remove()
                    rows = [table(p, "flat" if kw["flat"] else "rows")]
            e["rows"] = rows
            if uc.is_initialized:
                e["init"] = True
                with guard(limit):
                    days, ix = pd.DatetimeIndex(uc.days), pd.DatetimeIndex(uc.datetimeindex)
                    e["count"], e["nd"], e["ilen"] = len(days), int(uc.num_days), len(ix)
                e["first"] = num(days[0]) if (days == pd.date_range(days[0], periods=len(days))).all() and days[0].time() == datetime.time(0) else -99
                off = (ix[0] - pd.Timestamp(d1)).total_seconds() / 60
                e["ifirst"] = int(off) if off == int(off) and (ix == pd.date_range(ix[0], periods=len(ix), freq="min")).all() else -99
        except Exception as x:
            e["res"] = "hang" if isinstance(x, Hang) else "refused" if isinstance(x, ValueError) else "crash"
            e["msg"] = "%s %s" % (type(x).__name__, str(x)[:200])
        rec["ev"].append(e)
        if e["res"] in ("crash", "hang") or (e["res"] == "refused" and o["op"] in ("new", "init", "num", "index", "days")):
            break
    if datetime.date.today() != today:  # midnight passed
        return play(script, m, seed, out)
    out(rec)


def main():
    scripts = json.load(open(sys.argv[1]))
    seed, nproc, path = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    builtins.input = lambda *_: "2"

    def work(i, part):
        with open("%s.%d" % (path, i), "w") as f:
            for m in part:
                play(scripts[m], m, seed, lambda e: f.write(json.dumps(e) + "\n"))

    sys.exit(1 if shards(nproc, work, list(range(len(scripts)))) else 0)


main()
