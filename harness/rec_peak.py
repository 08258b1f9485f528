"""Programs of Peak.tla carried out with the real code.

usage: rec_peak.py SCRIPTS.json SEED NPROC OUT
"""
import random as R
from env import *
import fakepool


def runs(a):
    """Runs <<from, to, tenths of watts>> of the nonzero minutes of a maximum profile (given in thousandths)."""
    v = np.asarray(a, dtype=float) * 10000.0
    assert v.shape == (1440,) and np.isfinite(v).all()
    r = np.round(v)
    r[np.abs(v - r) > 1e-6 * np.maximum(1, np.abs(v))] = -1
    cut = (np.flatnonzero(np.diff(r)) + 1).tolist()
    return [[s, e, int(r[s])] for s, e in zip([0] + cut, cut + [1440]) if r[s] != 0]


def rangelist(p):
    p = np.asarray(p)
    if p.ndim != 1 or len(p) == 0 or (np.diff(p) != 1).any():
        return [-9999, len(p)]
    return [int(p[0]), len(p)]


def appliance(u, o, r):
    """What is drawn here must not matter for the maximum profile."""
    p = o["p"] / 10.0
    wins = o["win"]
    kw = dict(number=o["num"], power=p, num_windows=len(wins), func_time=1, time_fraction_random_variability=r.choice((0, 0.5)),
              occasional_use=r.choice((1, 0.3)), flat=r.choice(("no", "yes")), thermal_p_var=r.choice((0, 0.5)), wd_we_type=r.choice((0, 1, 2)),
              pref_index=0, fixed=r.choice(("no", "yes")), random_var_w=r.choice((0, 0.4)))
    if r.random() < 0.3:
        kw["power"] = pd.DataFrame([p * (1.5 if i % 2 else 0.5) for i in range(366)])
    elif r.random() < 0.2:
        kw.update(fixed_cycle=1, p_11=500, t_11=3, p_12=40, t_12=5, cw11=[0, 1440])
    for i, w in enumerate(wins):
        kw["window_%d" % (i + 1)] = list(w)
    if r.random() < 0.3:  # the same by separate calls
        ws = {k: kw.pop(k) for k in list(kw) if k.startswith("window_")}
        rv = kw.pop("random_var_w")
        a = u.add_appliance(**kw)
        a.windows(random_var_w=rv, **ws)
    else:
        u.add_appliance(**kw)


def play(script, m, seed, out):
    r = R.Random("peak%d-%d" % (seed, m))
    rec = dict(m=m, ev=[])
    us, uc = [], None
    dates = dict(date_start="2024-03-01", date_end="2024-03-02")
    for o in script:
        if o["op"] == "over":
            break
        e = dict(o, res="ok", range=[0, 0], ret=[0, 0], max=[])
        op, enl = o["op"], o["e"] / 100.0
        rng.set_mode(rng.Forced(1, zs=[o["k"] / 4.0, o["j"] / 4.0] * 8))
        try:
            with guard(60):
                if op == "user":
                    us.append(User("u%d" % len(us), o["n"]))
                    if uc is not None:
                        uc.add_user(us[-1])
                elif op == "app":
                    appliance(us[o["u"] - 1], o, r)
                elif op == "make":
                    if r.random() < 0.5:
                        uc = UseCase(users=us, peak_enlarge=enl, **dates)
                    else:
                        uc = UseCase(peak_enlarge=enl)
                        uc.add_user(us) if r.random() < 0.5 else [uc.add_user(u) for u in us]
                        uc.date_start, uc.date_end = dates["date_start"], dates["date_end"]
                        uc.initialize()
                elif op == "force":
                    uc.initialize(force=True)
                elif op == "forceenl":
                    uc.initialize(peak_enlarge=enl, force=True)
                elif op == "set":
                    uc.peak_enlarge = enl
                elif op == "calcenl":
                    e["ret"] = rangelist(uc.calc_peak_time_range(peak_enlarge=enl))
                elif op == "calc":
                    e["ret"] = rangelist(uc.calc_peak_time_range())
                else:
                    rng.plain(seed * 1000 + m)
                    if op == "par":
                        uc.parallel_processing = True
                        fakepool.install(m)
                    try:
                        uc.generate_daily_load_profiles(flat=m % 2 == 0)
                    except ValueError as x:
                        if FIT_MSG not in str(x):
                            raise
                    finally:
                        fakepool.remove()
                        uc.parallel_processing = False
                total = np.zeros(1440)
                for u in us:
                    total = total + u.maximum_profile
                e["max"] = runs(total)
                if uc is not None and uc.peak_time_range is not None:
                    e["range"] = rangelist(uc.peak_time_range)
        except Exception as x:
            e["res"] = "hang" if isinstance(x, Hang) else "crash"
            e["msg"] = "%s %s" % (type(x).__name__, str(x)[:200])
        rec["ev"].append(e)
        if e["res"] != "ok":
            break
    out(rec)


def main():
    scripts = json.load(open(sys.argv[1]))
    seed, nproc, path = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]

    def work(i, part):
        with open("%s.%d" % (path, i), "w") as f:
            for m in part:
                play(scripts[m], m, seed, lambda e: f.write(json.dumps(e) + "\n"))

    sys.exit(1 if shards(nproc, work, list(range(len(scripts)))) else 0)


main()
