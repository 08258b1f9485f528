"""Programs of Seed.tla carried out with the real code.

usage: rec_seed.py SCRIPTS.json SEED NPROC OUT HALF
"""
import sys, json, hashlib, datetime, random
from env import *
import fakepool

SEEDS = {"0": 0, "1": 1, "-7": -7, "big": 2 ** 70 + 3, "5": 5, "": None}
START, NDAYS = datetime.date(2023, 6, 2), 3
END = START + datetime.timedelta(days=NDAYS - 1)


def users(model):
    us = []
    if model == "m1":
        u = User("a", 2)
        u.add_appliance(name="x", number=3, power=10.5, num_windows=2, func_time=40, time_fraction_random_variability=0.2, func_cycle=5,
                        window_1=[300, 500], window_2=[900, 1100], random_var_w=0.3, thermal_p_var=0.1)
        us.append(u)
    elif model == "m2":
        for n, pref in ((2, 2), (1, 3)):
            u = User("u%d" % pref, n, pref)
            for k in range(3):
                u.add_appliance(name="p%d" % k, number=2, power=7.3 + k, num_windows=1, func_time=30, window_1=[400 + 100 * k, 700 + 100 * k],
                                pref_index=k % (pref + 1), occasional_use=0.7, random_var_w=0.1)
            us.append(u)
    else:
        u = User("c", 2)
        u.add_appliance(name="c3", number=2, power=50, num_windows=1, func_time=100, func_cycle=8, window_1=[0, 1440], fixed_cycle=3, continuous_duty_cycle=0,
                        thermal_p_var=0.2, p_11=10, t_11=5, p_12=3, t_12=7, r_c1=0.2, cw11=[0, 400], p_21=20, t_21=4, p_22=2, t_22=6, r_c2=0.3, cw21=[401, 900],
                        p_31=31, t_31=3, p_32=1, t_32=9, r_c3=0.1, cw31=[901, 1440])
        u.add_appliance(name="s", number=4, power=pd.DataFrame([float(5 + i % 9) for i in range(366)]), num_windows=1, func_time=60, window_1=[500, 900], thermal_p_var=0.05)
        u.add_appliance(name="f", number=1, power=11, num_windows=1, func_time=60, window_1=[600, 1300], random_var_w=0.2, flat="yes", occasional_use=0.5, wd_we_type=1)
        us.append(u)
    return us


def digest(a):
    return hashlib.sha1(np.ascontiguousarray(np.asarray(a, dtype=float).ravel()).tobytes()).hexdigest()[:16]


def play(script, m, seed, out):
    slot = {}
    ev = []
    rng.plain(seed * 1000 + m)
    real = m % 12 == 5
    xlsx = os.path.join(os.environ.get("TMPDIR", "/tmp"), "seed-%d-%d" % (os.getpid(), m))
    for k, o in enumerate(script):
        e = dict(o, peak="", prof="", kept=True, res="ok")
        try:
            with guard(90):
                if o["op"] == "noise":
                    for _ in range(o["n"]):
                        random.random()
                elif o["op"] == "ext":
                    random.seed(SEEDS[o["seed"]])
                elif o["op"] == "new":
                    way = o["way"]
                    us = users(o["model"])
                    kw = dict(parallel_processing=o["mode"] == "par", random_seed=SEEDS[o["seed"]])
                    if way == "load":
                        helper = UseCase(users=us)
                        helper.save(xlsx)
                    before = random.getstate()
                    if way == "ctor":
                        uc = UseCase(users=us, date_start=START.isoformat(), date_end=END.isoformat(), **kw)
                        e["peak"] = digest(uc.peak_time_range)
                    elif way == "num":
                        uc = UseCase(users=us, date_start=START.isoformat(), **kw)
                    elif way == "load":
                        uc = UseCase(date_start=START.isoformat(), **kw)
                        uc.load(xlsx + ".xlsx")
                        os.remove(xlsx + ".xlsx")
                    else:
                        uc = UseCase(users=us, **kw)
                    e["kept"] = random.getstate() == before
                    slot[o["s"]] = (uc, way)
                elif o["op"] == "init":
                    uc, way = slot[o["s"]]
                    if way in ("days", "attrs"):
                        uc.date_start, uc.date_end = START.isoformat(), END.isoformat()
                    if uc.is_initialized:
                        uc.initialize(force=True)
                    else:
                        uc.initialize(num_days=NDAYS if way in ("num", "load") else None)
                    e["peak"] = digest(uc.peak_time_range)
                else:
                    uc, way = slot[o["s"]]
                    if uc.parallel_processing and not real:
                        fakepool.install(seed * 100000 + m * 100 + k)
                    try:
                        kw = dict(flat=o["n"] == 1)
                        if uc.days is None:
                            kw["days"] = pd.date_range(START, END)
                        p = uc.generate_daily_load_profiles(**kw)
                    finally:
                        fakepool.remove()
                    e["prof"], e["peak"] = digest(p), digest(uc.peak_time_range)
        except Exception as x:
            e["res"] = "hang" if isinstance(x, Hang) else "crash"
            e["msg"] = "%s %s" % (type(x).__name__, str(x)[:200])
        ev.append(e)
        if e["res"] != "ok":
            break
    out(dict(m=m, ev=ev))


def main():
    scripts = json.load(open(sys.argv[1]))
    seed, nproc, path = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]

    def work(i, part):
        with open("%s.%d" % (path, i), "w") as f:
            for m in part:
                play(scripts[m], m, seed, lambda e: f.write(json.dumps(e) + "\n"))

    sys.exit(1 if shards(nproc, work, list(range(int(sys.argv[5]), len(scripts), 2))) else 0)


main()
