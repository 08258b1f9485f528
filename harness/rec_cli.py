"""Command lines of Cli.tla carried out with the real command line program, in folders of their own.

usage: rec_cli.py SCRIPTS.json SEED NPROC OUT DIR
"""
import builtins, csv, datetime, json, random as R, shutil
from env import *
import fakepool
import ramp.cli as cli
import ramp.post_process.post_process as post
import ramp.core.core as core

KINDS = ("series", "const")
CACHE = [None]


def model(f, path):
    cached = os.path.join(CACHE[0], "%s%d.xlsx" % (f["kind"], f["id"]))
    if not os.path.exists(cached):
        build(f, cached)
    shutil.copy(cached, path)


def build(f, path):
    u = User("user", 1)
    base = 6 * 400 * f["id"]
    p = pd.DataFrame([float(base + 6 * i) for i in range(366)]) if f["kind"] == "series" else base
    a = dict(number=1, num_windows=1, func_time=1, flat="yes")
    u.add_appliance(name="day", power=p, window_1=[0, 730], **a)
    u.add_appliance(name="weekend", power=500, wd_we_type=1, window_1=[720, 1440], **a)
    UseCase(users=[u]).save(path[:-5])


def put(path, text):
    with open(path, "w") as f:
        f.write(text)


class Nothing:
    """Stands for the plots, which nobody looks at."""

    def __getattr__(self, name):
        return lambda *a, **k: None


def day_rows(v):
    """One triple per day, or a mark when the values have another shape."""
    v = np.asarray(v, dtype=float)
    if v.ndim != 1 or len(v) % 1440 or not np.isfinite(v).all():
        return [[-1, -1, -1]]
    d = v.reshape(-1, 1440)
    out = []
    for x in d:
        t = [x[0], x[725], x[1000]]
        ok = (x[:720] == t[0]).all() and (x[720:730] == t[1]).all() and (x[730:] == t[2]).all() and all(y == int(y) for y in t)
        out.append([int(y) for y in t] if ok else [-2, -2, -2])
    return out


def read(path):
    with open(path) as f:
        return list(csv.reader(f))


def series_file(path):
    rows = read(path)
    try:
        if any(len(r) != 2 for r in rows) or [r[0] for r in rows[1:]] != [str(i) for i in range(len(rows) - 1)]:
            return [[-3, -3, -3]]
        return day_rows([float(r[1]) for r in rows[1:]])
    except ValueError:
        return [[-4, -4, -4]]


def stamps(rows, step):
    """The ordinal of the first day if the time stamps follow each other."""
    try:
        first = datetime.datetime.fromisoformat(rows[1][0])
        if first.time() != datetime.time(0) or any(r[0] != (first + k * step).isoformat(" ") for k, r in enumerate(rows[1:])):
            return -1
        return first.toordinal()
    except (ValueError, IndexError):
        return -1


def hours(path, first):
    rows = read(path)
    if rows[0] != ["", "mean", "max", "min"] or stamps(rows, datetime.timedelta(hours=1)) != first or (len(rows) - 1) % 24:
        return [[-1]]
    try:
        v = [[float(x) for x in r[1:]] for r in rows[1:]]
    except ValueError:
        return [[-2]]
    out = []
    for k in range(0, len(v), 24):
        d = v[k:k + 24]
        if any(x != d[0] for x in d[:12]) or any(x != d[13] for x in d[13:]) or any(len(x) != 3 for x in d):
            out.append([-3])
            continue
        t = d[0] + d[12] + d[13]
        r = [int(round(x)) for x in t]
        out.append(r if all(abs(a - b) < 1e-6 for a, b in zip(r, t)) else [-4])
    return out


def play(c, m, seed, out, root):
    r = R.Random("cli%d-%d" % (seed, m))
    today = datetime.date.today()
    c["today"] = today.toordinal()
    top = os.path.join(root, "run%d-%d" % (os.getpid(), m))
    w = os.path.join(top, r.choice(("x", "y 2", "2024")))
    os.makedirs(os.path.join(w, "base", "results"))
    os.chdir(w)
    e = dict(m=m, c=c, res="ok", sims=[], files=[], year=[], pys=[], extra=[], argv=[])
    try:
        folder = r.choice(("months", "m2024", "in put"))
        names = {}
        pad = r.random() < 0.5
        stem = r.choice(("m", "input_", "", "case2_"))
        with guard(60):
            if c["dir"]:
                os.mkdir(folder)
            for f in c["files"]:
                ext = {"series": ".xlsx", "const": ".xlsx", "none": ".xlsx", "py": ".py", "nopy": ".py", "text": r.choice((".txt", ".xls", ".csv")), "other": ".csv"}[f["kind"]]
                if c["dir"]:
                    n = "%02d" % f["num"] if pad or (stem != "case2_" and r.random() < 0.2) else str(f["num"])
                    name = os.path.join(folder, (n + stem if r.random() < 0.2 and stem != "case2_" else stem + n) + ext)
                else:
                    name = ("file%d" % f["id"]) + ext
                    if r.random() < 0.3:
                        os.makedirs("sub", exist_ok=True)
                        name = os.path.join("sub", name)
                    if r.random() < 0.3 and f["kind"] not in ("py", "nopy"):
                        name = os.path.join(w, name)
                names[f["id"]] = name
                if f["kind"] in KINDS:
                    model(f, name)
                elif f["kind"] == "py":
                    name = names[f["id"]] = "script%d.py" % f["id"]
                    put(name, "open('log%d', 'a').write('x')\n" % f["id"])
                elif f["kind"] in ("text", "other"):
                    put(name, "x")
        argv = ["ramp"]
        groups = []
        outname = lambda o: "out %d%s" % (o, "" if c["dir"] else ".csv")
        if c["files"]:
            groups.append(["-i"] + ([folder] if c["dir"] else [names[f["id"]] for f in c["files"]]))
        if c["outs"]:
            groups.append(["-o"] + [outname(o) for o in c["outs"]])
        if c["n"]:
            groups.append(["-n"] + [str(n) for n in c["n"]])
        if c["years"]:
            groups.append(["-y"] + [str(y) for y in c["years"]])
        for k, o in (("ds", "--start-date"), ("de", "--end-date")):
            if c[k]:
                groups.append([o, datetime.date(*c[k]).isoformat()])
        par = r.random() < 0.15
        if par:
            groups.append(["-p"])
        r.shuffle(groups)
        for g in groups:
            argv += g
        e["argv"] = argv
        before = {os.path.join(a, f) for a, _, ff in os.walk(w) for f in ff}
        plain = UseCase.generate_daily_load_profiles

        def recorded(self, *a, **k):
            res = plain(self, *a, **k)
            days = pd.DatetimeIndex(self.days)
            ident = int(np.asarray(self.users[0].App_list[0].power)[0]) // 2400 if self.users else -1
            ok = (days == pd.date_range(days[0], periods=len(days))).all()
            e["sims"].append(dict(id=ident, first=days[0].toordinal() if ok else -1, count=len(days)))
            return res

        UseCase.generate_daily_load_profiles = recorded
        post.BASE_PATH = os.path.join(w, "base")
        builtins.input = lambda *_: str(c["asked"])
        post.plt = Nothing()
        sys.argv = argv
        if par:
            fakepool.install(seed * 1000 + m)
        rng.plain(m)
        try:
            with guard(240):
                cli.main()
        except Hang:
            e["res"] = "hang"
        except SystemExit as x:
            e["res"] = "exit"
        except Exception as x:
            e["res"] = "error"
            e["msg"] = "%s %s" % (type(x).__name__, str(x)[:200])
        finally:
            if par:
                fakepool.remove()
            UseCase.generate_daily_load_profiles = plain
        after = {os.path.join(a, f) for a, _, ff in os.walk(w) for f in ff} - before
        for p in sorted(after):
            rel = os.path.relpath(p, w)
            if rel.startswith("log") and rel[3:].isdigit():
                e["pys"] += [int(rel[3:])] * os.path.getsize(p)
                continue
            place = [o for o in set(c["outs"]) if outname(o) == rel]
            place += [100 + i for i, n in names.items() if rel == os.path.join("base", "results", "output_file_%s.csv" % os.path.basename(n).replace(".", "_"))]
            if place:
                e["files"].append(dict(place=place[0], rows=series_file(p), first=0))
                continue
            d, n = os.path.split(rel)
            place = [o for o in (set(c["outs"]) or [0]) if (outname(o) if o else "") == d]
            if place and n == "yearly_profile_min_resolution.csv":
                rows = read(p)
                try:
                    vals = day_rows([float(x[1]) for x in rows[1:]])
                except ValueError:
                    vals = [[-4]]
                e["files"].append(dict(place=place[0], rows=vals, first=stamps(rows, datetime.timedelta(minutes=1))))
                h = os.path.join(os.path.dirname(p), "yearly_profile_hourly_resolution.csv")
                e["year"] = hours(h, e["files"][-1]["first"]) if os.path.exists(h) else [[-9]]
                continue
            if n == "yearly_profile_hourly_resolution.csv" and place:
                continue
            e["extra"].append(rel)
        for p in before:
            if not os.path.exists(p):
                e["extra"].append("lost " + p)
    finally:
        os.chdir(root)
        shutil.rmtree(top, ignore_errors=True)
    if datetime.date.today() != today:
        return play(c, m, seed, out, root)
    out(e)


def main():
    scripts = json.load(open(sys.argv[1]))
    seed, nproc, path, root = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5]
    os.makedirs(root, exist_ok=True)
    # "python" must be there for scripts given as input
    os.environ["PATH"] = os.path.dirname(sys.executable) + ":" + os.environ.get("PATH", "")

    def work(i, part):
        CACHE[0] = os.path.join(root, "cache%d" % i)
        os.makedirs(CACHE[0])
        with open("%s.%d" % (path, i), "w") as f:
            for m in part:
                play(scripts[m], m, seed, lambda e: f.write(json.dumps(e) + "\n"), root)

    sys.exit(1 if shards(nproc, work, list(range(len(scripts)))) else 0)


if __name__ == "__main__":
    main()
