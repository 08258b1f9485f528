"""Programs of Model.tla carried out with the real code.

usage: rec_model.py SCRIPTS.json SEED NPROC OUT
"""
import datetime, hashlib, random, numbers
import random as R
from env import *
import fakepool

CORE = ("number", "power", "num_windows", "func_time", "time_fraction_random_variability", "func_cycle", "fixed", "fixed_cycle",
        "continuous_duty_cycle", "occasional_use", "flat", "thermal_p_var", "pref_index", "wd_we_type", "name")
LEGACY = tuple("thermal_P_var" if c == "thermal_p_var" else c for c in CORE if c != "continuous_duty_cycle")
PARS = CORE + ("window_1", "window_2", "window_3", "random_var_w") + tuple(
    x for k in "123" for x in ("p_%s1" % k, "t_%s1" % k, "p_%s2" % k, "t_%s2" % k, "r_c" + k, "cw%s1" % k, "cw%s2" % k))
SERIES = {"series1": [float(i % 7) + 0.125 for i in range(366)],
          "series2": [0.1 * i + (1 / 3.0) for i in range(365)] + [1e-9],
          "series3": [100.0] * 365 + [0.0]}
BAD = {"bad:list": [1, 2], "bad:none": None, "bad:array": np.ones(366), "bad:dict": {"a": 1}}
TEXTS = ("fixed", "flat", "name")


def value(p, s, r):
    """One of the ways of giving the value named s to parameter p."""
    if p in TEXTS:
        return s
    if p == "power" and s in BAD:
        return BAD[s]
    if p == "power" and s in SERIES:
        return pd.DataFrame(SERIES[s]) if r.random() < 0.6 else json.dumps(SERIES[s])
    if s.startswith("["):
        w = json.loads(s)
        return r.choice((w, tuple(w), np.array(w)))
    x = json.loads(s)
    if p == "power" and r.random() < 0.4:
        return float(x)
    return x


def num(v):
    if isinstance(v, (bool, np.bool_)) or not isinstance(v, numbers.Number):
        return "?" + repr(v)
    v = float(v)
    return str(int(v)) if v == int(v) and abs(v) < 1e15 else repr(v)


def canon(p, v):
    try:
        if p in TEXTS:
            return str(v) if isinstance(v, str) else "?" + repr(v)
        if p == "power":
            if isinstance(v, numbers.Number):
                return num(v)
            v = np.asarray(v, dtype=float)
            if v.ndim != 1 or len(v) == 0:
                return "?shape"
            if (v == v[0]).all():
                return num(v[0])
            for k, s in SERIES.items():
                if len(v) == len(s) and (v == np.array(s)).all():
                    return k
            return "?series" + hashlib.sha1(v.tobytes()).hexdigest()[:8]
        if p.startswith(("window", "cw")):
            return "[%s,%s]" % (num(v[0]), num(v[1])) if len(v) == 2 else "?" + repr(v)
        return num(v)
    except Exception as x:
        return "?%s" % type(x).__name__


def par(a):
    return {p: canon(p, getattr(a, p, None)) for p in PARS}


def rows(df, errors):
    """A saved table, one record per appliance."""
    want = {"user_name", "num_users", "user_preference"}
    for p in PARS:
        want |= {p + "_start", p + "_end"} if p.startswith(("window", "cw")) else {p}
    cols = [c for c in df.columns if not str(c).startswith("Unnamed")]
    if set(cols) != want or len(cols) != len(set(cols)):
        errors.append("columns")
    out = []
    for rec in df.to_dict(orient="records"):
        d = {}
        for p in PARS:
            if p.startswith(("window", "cw")):
                d[p] = canon(p, [rec.get(p + "_start"), rec.get(p + "_end")])
            elif p == "power":
                v = rec.get(p)
                if isinstance(v, str):
                    try:
                        v = json.loads(v)
                    except ValueError:
                        v = []
                d[p] = canon(p, v)
            else:
                d[p] = canon(p, rec.get(p))
        n, f = rec.get("num_users"), rec.get("user_preference")
        out.append(dict(user=str(rec.get("user_name")), n=int(n), pref=int(f), par=d))
    return out


def digest(a):
    return hashlib.sha1(np.asarray(a, dtype=float).tobytes()).hexdigest()[:16]


class Program:
    def __init__(self, m, seed):
        self.r = R.Random("model%d-%d" % (seed, m))
        self.m, self.seed = m, seed
        self.uc = UseCase()
        self.users, self.objs, self.last = [], [], []
        rng.plain(seed * 1000 + m)
        self.file = os.path.join(os.environ.get("TMPDIR", "/tmp"), "model-%d-%d" % (os.getpid(), m))

    def ready(self):
        if not self.uc.is_initialized:
            self.uc.date_start, self.uc.date_end = "2024-03-01", "2024-03-02"
            self.uc.initialize()
        self.uc.peak_time_range = np.arange(600, 800)

    def do(self, o, e):
        r, op, form = self.r, o["op"], o["form"]
        args = {} if o["args"] == [] else o["args"]
        kw = {p: value(p, s, r) for p, s in args.items()} if op != "user" else {}
        if op == "user":
            a = (args["name"], int(args["n"]), int(args["pref"]))
            u = User(*a) if r.random() < 0.5 else User(user_name=a[0], num_users=a[1], user_preference=a[2])
            self.users.append(u)
            self.uc.add_user(u if r.random() < 0.5 else [u])
        elif op == "declare":
            u = self.users[o["u"] - 1]
            if form == "pos":
                k = o["k"]
                pos = [kw.pop(p) for p in CORE[:k]]
                a = u.add_appliance(*pos, **kw)
            elif form == "legacy":
                if "thermal_p_var" in kw:
                    kw["thermal_P_var"] = kw.pop("thermal_p_var")
                pos = []
                while len(pos) < 8 and LEGACY[len(pos)] in kw:
                    pos.append(kw.pop(LEGACY[len(pos)]))
                a = u.Appliance(*pos, **kw)
            else:
                a = u.add_appliance(**kw)
            self.objs.append(a)
        elif op == "construct":
            self.objs.append(Appliance(self.users[o["u"] - 1], **kw))
        elif op == "windows":
            a = self.objs[o["h"] - 1]
            if "window_1" in kw and "window_2" in kw and r.random() < 0.3:
                a.windows(kw.pop("window_1"), kw.pop("window_2"), **kw)
            else:
                a.windows(**kw)
        elif op == "cycle":
            a = self.objs[o["h"] - 1]
            k = o["k"]
            if r.random() < 0.5:
                a.specific_cycle(k, **kw)
            else:
                getattr(a, "specific_cycle_%d" % k)(**kw)
        elif op == "behaviour":
            self.objs[o["h"] - 1].cycle_behaviour(**kw)
        elif op == "add":
            a = self.objs[o["h"] - 1]
            a.user.add_appliance(a)
        elif op == "refuse":
            if form == "user":
                self.uc.add_user(r.choice(("x", None, 3, dict())))
            elif form == "list":
                self.uc.add_user([r.choice(("x", None, 3))])
            else:
                u = self.users[o["u"] - 1]
                if not u.App_list:
                    raise TypeError("nothing to add")
                u.add_appliance(u.App_list[0], r.choice(("x", None, 5)))
        elif op == "compare":
            n = len(self.objs)
            for i in range(n):
                for j in range(n):
                    if self.objs[i] is not None and self.objs[j] is not None:
                        e["eq"].append([i + 1, j + 1, bool(self.objs[i] == self.objs[j])])
            for i, u in enumerate(self.users):
                for j, v in enumerate(self.users):
                    e["ueq"].append([i + 1, j + 1, bool(u == v)])
        elif op == "save":
            self.save(form, e)
        elif op == "gen":
            self.generate(o, e)

    def save(self, form, e):
        errors = []
        if form == "table":
            e["tables"].append(rows(self.uc.save() if self.m % 2 else self.uc.export_to_dataframe(), errors))
            t = []
            for u in self.users:
                t += rows(u.save() if self.m % 2 else u.export_to_dataframe(), errors)
            e["tables"].append(t)
            t = []
            for u in self.users:
                for a in u.App_list:
                    t += rows(a.save() if self.m % 2 else a.export_to_dataframe(), errors)
            e["tables"].append(t)
        else:
            first = self.uc.save()
            uc = self.uc
            for k in range(2 if form == "load" else 1):
                f = "%s-%d" % (self.file, k)
                uc.save(f)
                uc = UseCase()
                try:
                    uc.load(f + ".xlsx")
                finally:
                    os.remove(f + ".xlsx")
                e["tables"].append(rows(uc.save(), errors))
                t = []
                for u in uc.users:
                    for a in u.App_list:
                        t.append(dict(user=u.user_name, n=int(u.num_users), pref=int(u.user_preference), par=par(a)))
                e["tables"].append(t)
            for i, u in enumerate(self.users):
                for j, v in enumerate(uc.users):
                    e["ueq"].append([i + 1, j + 1, bool(u == v)])
            if not uc.save().equals(first) and json.dumps(rows(uc.save(), errors)) != json.dumps(rows(first, errors)):
                errors.append("second save")
            if form == "swap":
                new = {}
                for u, v in zip(self.users, uc.users):
                    for a, b in zip(u.App_list, v.App_list):
                        new[id(a)] = b
                self.objs = [new.get(id(a)) if a is not None else None for a in self.objs]
                self.users, self.uc = uc.users, uc
        if errors:
            e["res"] = "malformed " + errors[0]

    def generate(self, o, e):
        form, k = o["form"], o["k"]
        u = self.users[o["u"] - 1]
        try:
            if form == "maximum":
                e["digest"] = digest([x.maximum_profile for x in self.users])
                return
            self.ready()
            peak = self.uc.peak_time_range
            if form in ("usecase", "flat"):
                self.uc.generate_daily_load_profiles(flat=form == "flat")
            elif form == "parallel":
                self.uc.parallel_processing = True
                fakepool.install(self.m * 10 + k)
                try:
                    self.uc.generate_daily_load_profiles(flat=False)
                finally:
                    fakepool.remove()
                    self.uc.parallel_processing = False
            elif form == "seeded":
                random.seed(k)
                e["digest"] = digest(self.uc.generate_daily_load_profiles())
            elif form == "user":
                u.generate_aggregated_load_profile(k % 2, peak, k // 2 % 2)
            elif form == "single":
                u.generate_single_load_profile(k % 2, peak, k // 2 % 2)
            elif form == "appliance":
                a = u.App_list[k % len(u.App_list)]
                a.generate_load_profile(k % 2, peak, k // 2 % 2, a.power[k % 2])
        except Hang:
            raise
        except Exception as x:  # whether it may fail is another property
            e["msg"] = "%s %s" % (type(x).__name__, str(x)[:200])
            if form == "seeded":
                e["digest"] = "failed " + type(x).__name__

    def observe(self, e):
        lists = []
        for u in self.users:
            ids = [next((i + 1 for i, a in enumerate(self.objs) if a is x), 0) for x in u.App_list]
            lists.append(dict(name=u.user_name, n=int(u.num_users), pref=int(u.user_preference), apps=ids))
        if len(self.uc.users) != len(self.users) or any(a is not b for a, b in zip(self.uc.users, self.users)):
            lists = []
        e["lists"] = lists
        for i, a in enumerate(self.objs):
            if a is None:
                continue
            p = par(a)
            if i >= len(self.last):
                self.last.append(None)
            if p != self.last[i]:
                e["chg"].append([i + 1, p])
                self.last[i] = p


def play(script, m, seed, out):
    with guard(10):
        P = Program(m, seed)
    ev = []
    for o in script:
        if o["op"] == "end":
            break
        e = dict(o, res="ok", lists=[], chg=[], eq=[], ueq=[], tables=[], digest="")
        try:
            with guard(60):
                P.do(o, e)
        except Exception as x:
            e["res"] = "hang" if isinstance(x, Hang) else "refused" if isinstance(x, (ValueError, TypeError)) else "crash"
            e["msg"] = "%s %s" % (type(x).__name__, str(x)[:200])
        with guard(60):
            P.observe(e)
        ev.append(e)
        if e["res"] in ("crash", "hang") or (e["res"] == "refused" and o["op"] == "windows"):
            break
    out(dict(m=m, ev=ev))


def main():
    scripts = json.load(open(sys.argv[1]))
    seed, nproc, path = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]

    def work(i, part):
        with open("%s.%d" % (path, i), "w") as f:
            for m in part:
                play(scripts[m], m, seed, lambda e: f.write(json.dumps(e) + "\n"))

    sys.exit(1 if shards(nproc, work, list(range(len(scripts)))) else 0)


if __name__ == "__main__":
    main()
