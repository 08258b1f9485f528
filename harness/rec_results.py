"""Programs of Results.tla carried out with the real result classes.

usage: rec_results.py SCRIPTS.json SEED NPROC OUT
"""
import json, math, random as R
from env import *
from ramp import Plot
import ramp.post_process.post_process as post

MINUTE = pd.Timedelta(minutes=1)


class Odd(Exception):
    pass


def whole(v):
    v = float(v)
    if not math.isfinite(v) or abs(v - round(v)) > 1e-6 or abs(v) > 2e9:
        raise Odd("value %r" % v)
    return int(round(v))


def runs(v):
    """[position, value, length] of the stretches which go up by one."""
    out = []
    for k, x in enumerate(v):
        x = whole(x)
        if out and out[-1][1] + out[-1][2] == x:
            out[-1][2] += 1
        else:
            out.append([k, x, 1])
        if len(out) > 50:
            break
    return out


def play(script, m, seed, out):
    r = R.Random("results%d-%d" % (seed, m))
    epoch = pd.Timestamp(r.choice(("2024-01-01", "2023-12-31", "2024-02-28", "2023-06-15")))
    tmp = os.path.join(os.environ.get("TMPDIR", "/tmp"), "results-%d-%d" % (os.getpid(), m))
    # powers of two: every value and every result of an operation is exact
    scale = r.choice((1, 1, 2.0 ** -30, 2.0 ** -9, 2.0 ** 12))
    val = lambda v: whole(float(v) / scale)
    P = []
    ev = []

    def minutes(ix):
        return [whole((pd.Timestamp(t) - epoch) / MINUTE) for t in ix]

    def index(idx):
        ix = pd.DatetimeIndex([epoch + k * MINUTE for k in idx])
        steps = {b - a for a, b in zip(idx, idx[1:])}
        if len(steps) == 1 and min(steps) > 0 and r.random() < 0.7:
            ix = pd.date_range(ix[0], periods=len(idx), freq="%dmin" % min(steps))
        return ix

    def frame(t, ix=True):
        kind = r.choice((int, float)) if scale == 1 else float
        return pd.DataFrame({c: np.array(d, dtype=kind) * scale for c, d in zip(t["cols"], t["data"])}, index=index(t["idx"]) if ix else None)

    def table(p):
        try:
            df = p.DataFrame
            return dict(cols=[str(c) if isinstance(c, str) else repr(c) for c in df.columns], idx=minutes(df.index),
                        data=[[val(v) for v in df.iloc[:, k].values] for k in range(df.shape[1])])
        except Exception as x:
            return dict(cols=["?" + repr(x)[:80]], idx=[], data=[])

    def traces(fig, dated=True, times=1):
        return [dict(name=str(t.name), x=minutes(t.x) if dated else [whole(v) for v in t.x], y=[val(v * times) for v in t.y]) for t in fig.data]

    def do(o, e):
        op, p = o["op"], P[o["h"] - 1] if o["h"] <= len(P) else None
        cs = list(o["cs"])
        if op == "new":
            P.append(Plot(frame(o["t"], False), index(o["t"]["idx"])) if o["f"] else Plot(frame(o["t"])))
        elif op in ("resample", "resample!"):
            f = {60: "1h", 1440: "1D"}.get(o["f"], "%dmin" % o["f"]) if r.random() < 0.6 else "%dmin" % o["f"]
            kw = {}
            if o["k"] != 1 or r.random() < 0.5:
                kw["conversion"] = o["k"]
            if op == "resample!":
                if p.resample(f, o["rule"], inplace=True, **kw) is not None:
                    raise Odd("answer of an operation in place")
            else:
                P.append(p.resample(f, o["rule"], **kw))
        elif op == "rename":
            p.columns = cs
        elif op == "add":
            p.add_column(P[o["g"] - 1] if r.random() < 0.5 else P[o["g"] - 1].DataFrame.copy())
        elif op == "addtable":
            t = frame(o["t"])
            p.add_column(t if r.random() < 0.5 else Plot(t))
        elif op == "addother":
            p.add_column(r.choice((3, "a", [1], p.DataFrame[p.columns[0]] if p.columns else None)))
        elif op == "get":
            P.append(p[cs[0]] if len(cs) == 1 and r.random() < 0.6 else p[cs])
        elif op == "loccols":
            P.append(p.loc(columns=cs[0]) if len(cs) == 1 and r.random() < 0.6 else p.loc(columns=cs))
        elif op == "loc":
            a, b = (epoch + k * MINUTE for k in o["is"])
            s = slice(str(a), str(b)) if r.random() < 0.5 else slice(a, b)
            P.append(p.loc(s, cs) if cs else p.loc(s))
        elif op == "locrow":
            t = p.index[o["is"][0] - 1]
            P.append(p.loc(r.choice((t, [t]))))
        elif op == "iloc":
            k = [i - 1 for i in o["is"]]
            if len(k) == 1 and r.random() < 0.5:
                k = k[0]
            if cs:
                c = [p.columns.index(c) for c in cs]
                P.append(p.iloc(k, c[0] if len(c) == 1 and r.random() < 0.5 and not isinstance(k, int) else c))
            else:
                P.append(p.iloc(k))
        elif op == "head":
            P.append(p.head(o["f"]))
        elif op in ("mean", "sum", "copy"):
            P.append(getattr(p, op)())
        elif op in ("csv", "excel"):
            f = tmp + (".csv" if op == "csv" else ".xlsx")
            try:
                if op == "csv":
                    if o["f"] == 1:
                        p.to_csv(f, sep=";")
                        q = Plot.from_file(f, sep=";", index=p.index)
                    else:
                        p.to_csv(f)
                        q = Plot.from_file(f, index=p.index if o["f"] == 0 else None)
                else:
                    p.to_excel(f)
                    q = Plot.from_file(f, index=p.index if o["f"] == 0 else None)
            finally:
                if os.path.exists(f):
                    os.remove(f)
            if o["f"] == 2:
                q = Plot(q.DataFrame, pd.DatetimeIndex([pd.Timestamp(t) for t in q.index]))
            P.append(q)
        elif op == "error":
            er = p.error(cs[0], cs[1])
            if minutes(er.index) != minutes(p.index):
                raise Odd("index of the errors")
            y = np.asarray(p.DataFrame[cs[1]], dtype=float)
            for v, w in zip(np.asarray(er, dtype=float).ravel(), y):
                e["answer"].append(["inf", 1 if v > 0 else -1] if math.isinf(v) else ["num", val(v * w) if w else whole(v)])
        elif op == "peak":
            pk = p.peak
            for c in p.columns:
                e["answer"].append([[a, val(v)] for a, v in zip(minutes(pk[c].index), pk[c].values)])
            if list(pk) != p.columns:
                raise Odd("columns of the peaks")
        elif op == "duration":
            if o["f"] == 0:
                ax = p.load_duration_curve(cs[0], engine="matplotlib")
                import matplotlib.pyplot as plt

                for k in ax.get_lines():
                    e["answer"].append(dict(name=cs[0], x=[whole(v) for v in k.get_xdata()], y=[val(v) for v in k.get_ydata()]))
                plt.close("all")
            else:
                e["answer"] = traces(p.load_duration_curve(cs[0], engine="plotly"), False)
        elif op in ("plotline", "plotarea"):
            f = getattr(p, op[4:])
            e["answer"] = traces(f(columns=cs, engine="plotly") if o["f"] % 2 == 0 else f(engine="Plotly"))
        elif op == "plotshadow":
            kw = dict(engine="plotly")
            if o["f"] >= 2:
                kw.update(main_column=cs[0], average=False)
            if o["f"] % 2 == 0:
                kw["columns"] = cs
            fig = p.shadow(**kw)
            a = traces(fig, times=len(p.columns))
            for k, t in enumerate(a):
                if k or o["f"] >= 2:
                    t["y"] = [v // len(p.columns) for v in t["y"]]
                # only the main curve is named
                if k:
                    t["name"] = (cs if o["f"] % 2 == 0 else p.columns)[k - 1] if k <= len(cs if o["f"] % 2 == 0 else p.columns) else "?"
            e["answer"] = a
        elif op == "look":
            str(p), repr(p), p.freq
            if list(p.columns) != list(p.DataFrame.columns):
                raise Odd("columns")
            e["answer"] = [dict(name="", x=minutes(p.index), y=[len(p.columns)])]
        elif op == "format":
            # the day called 0 may be one without any use
            zero = r.random() < 0.5
            days = [(np.arange(1440, dtype=float) + d * 1440 if d or not zero else np.zeros(1440)) * scale for d in o["is"]]
            given = np.array(days) if r.random() < 0.5 else [d.copy() for d in days]
            avg, kw, series = post.Profile_formatting(given)
            if any((np.asarray(a) != b).any() for a, b in zip(given, days)):
                raise Odd("profiles were altered")
            n = len(days)
            used = len([d for d in o["is"] if d or not zero])
            sound = lambda v: np.array([x / scale + (k % 1440 if zero and not o["is"][min(k // 1440, n - 1)] else 0) for k, x in enumerate(v)])
            a = [whole(v / scale * n) for v in avg]
            step = {y - x for x, y in zip(a, a[1:])}
            kwv = [v * 1000 for d in kw for v in d]
            base, post.BASE_PATH = post.BASE_PATH, tmp
            os.makedirs(os.path.join(tmp, "results"), exist_ok=True)
            try:
                f = [os.path.join(tmp, "x.csv"), os.path.join(tmp, "results", "output_file_in_put_xlsx.csv"), os.path.join(tmp, "results", "output_file_7.csv"),
                     os.path.join(tmp, "y.csv")][o["f"]]
                a4 = [dict(ofname=f), dict(fname="a/b/in.put.xlsx"), dict(j=7), dict(j=3, fname="z", ofname=f)][o["f"]]
                post.export_series(series, **a4)
                files = [os.path.join(d, x) for d, _, ff in os.walk(tmp) for x in ff]
                if files != [f]:
                    raise Odd("files %s" % files)
                df = pd.read_csv(f, index_col=0, float_precision="round_trip")
                if df.shape[1] != 1 or list(df.index) != list(range(len(df))):
                    raise Odd("shape of the file")
                filed = list(df.iloc[:, 0])
            finally:
                post.BASE_PATH = base
                import shutil

                shutil.rmtree(tmp, ignore_errors=True)
            e["answer"] = dict(series=runs(sound(series)), file=runs(sound(filed)), avg=[[0, a[0], len(a)]] if step == {used} else [[-1, -1, -1]],
                               kw=runs(sound(kwv)) if len(kw) == n else [])
        elif op == "badfile":
            Plot.from_file(r.choice(("x.txt", "x.json", "csv", "x.xls")))
        elif op == "badengine":
            r.choice((p.line, p.area, p.shadow, lambda engine: p.load_duration_curve(p.columns[0], engine=engine)))(engine=r.choice(("bokeh", "")))
        elif op == "badframe":
            bad = r.choice(([1, 2], pd.Series([1, 2]), None, {"a": [1]}))
            if r.random() < 0.5:
                Plot(bad)
            else:
                p.DataFrame = bad

    for o in script:
        e = dict(o, res="ok", answer=[], tables=[])
        try:
            with guard(60):
                do(o, e)
        except Odd as x:
            e["res"], e["msg"] = "odd", str(x)
        except Exception as x:
            e["res"] = "hang" if isinstance(x, Hang) else "refused"
            e["msg"] = "%s %s" % (type(x).__name__, str(x)[:200])
        with guard(60):
            e["tables"] = [table(p) for p in P]
        ev.append(e)
        if e["res"] in ("odd", "hang"):
            break
    out(dict(m=m, ev=ev))


def main():
    scripts = json.load(open(sys.argv[1]))
    seed, nproc, path = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]

    def work(i, part):
        with open("%s.%d" % (path, i), "w") as f:
            for m in part:
                play(scripts[m], m, seed, lambda e: f.write(json.dumps(e) + "\n"))

    sys.exit(1 if shards(nproc, work, list(range(len(scripts)))) else 0)


if __name__ == "__main__":
    main()
