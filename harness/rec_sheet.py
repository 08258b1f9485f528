"""Sheets of Sheet.tla written cell by cell and loaded with the real code.

usage: rec_sheet.py SCRIPTS.json SEED NPROC OUT
"""
import datetime, json, random as R
from env import *
import openpyxl
import rec_model
from rec_model import CORE, PARS, canon, num

# numbers which a cell can hold
rec_model.SERIES["series2"] = [round(0.1 * i + 1 / 3.0, 9) for i in range(365)] + [1e-9]
SERIES = rec_model.SERIES
HEAD = ["user_name", "num_users", "user_preference"] + [
    c for p in PARS for c in ([p + "_start", p + "_end"] if p.startswith(("window", "cw")) else [p])]
NAMES = {"column": ["data", "Series_1"], "two": ["data", "S2"], "other": ["data 2", "x.y"], "absolute": ["data", "D"],
         "quoted": ["my data", "it's here", "2024"], "odd": ["a=b!c", "50%=x", "a!b", "x=y z"]}


def col(k):
    return openpyxl.utils.get_column_letter(k)


def series_cell(wb, how, values, r):
    """Write the values in the given form; returns the text of the power cell."""
    js = json.dumps(values)
    if how == "json":
        return r.choice((js, json.dumps(values, indent=1), js.replace(" ", "")))
    bad = dict(short=values[:-1], long=values + [1.0], text=values[:100] + ["x"] + values[101:], gap=values[:100] + [None] + values[101:])
    if how.startswith("json ") or how == "unparsable":
        k = how[5:]
        return json.dumps(bad[k]) if k in bad else dict(
            null=lambda: json.dumps(bad["gap"]), dict=lambda: json.dumps({"a": values}), nan=lambda: json.dumps(values[:-1] + [float("nan")]),
            **{"able": lambda: r.choice(("[1, 2", "abc", "1,2,3", "[" + "1 " * 366 + "]"))})[k if how[:4] == "json" else "able"]()
    if how == "no sheet":
        return "=nowhere!A1:A366"
    kind = how if how in NAMES else r.choice(("column", "other", "quoted"))
    name = r.choice(NAMES[kind])
    k = 0
    while name in wb.sheetnames:
        k += 1
        name = "%s%d" % (name[:20], k)
    ws = wb.create_sheet(name)
    c0, r0 = r.randint(1, 30), r.choice((1, 2, 17))
    vals = bad.get(how.split()[-1] if how.startswith("two ") else how, values)
    two = how.startswith("two") or how == "wide two" or (how in ("quoted", "odd") and r.random() < 0.4)
    if how == "wide two":
        vals = values[:183]
    if how == "rowwise":
        for i, v in enumerate(vals):
            ws.cell(row=r0, column=c0 + i, value=v)
        ref = "%s%d:%s%d" % (col(c0), r0, col(c0 + 365), r0)
    else:
        c1 = c0 + (1 if two else 2 if how == "three" else 0)
        for i, v in enumerate(vals):
            if c1 > c0:
                stamp = (datetime.datetime(2024, 1, 1) + datetime.timedelta(days=i), "day %d" % i, i, 3.5, values[i - 7])
                ws.cell(row=r0 + i, column=c0, value=stamp[k % 5 if k else len(name) % 5])
            ws.cell(row=r0 + i, column=c1, value=v)
        # neighbours which do not belong to the range
        ws.cell(row=r0 + len(vals), column=c1, value=77)
        ws.cell(row=r0, column=c1 + 1, value=78)
        d = "$" if how == "absolute" else ""
        ref = "%s%s%s%d:%s%s%s%d" % (d, col(c0), d, r0, d, col(c1), d, r0 + len(vals) - 1)
    plain = name.replace("_", "").isalnum() and not name[0].isdigit()
    return "=%s!%s" % (name if plain else "'%s'" % name.replace("'", "''"), ref)


def write(rows, path, r):
    wb = openpyxl.Workbook()
    ws = wb.active
    ws.title = r.choice(("Sheet1", "Sheet", "input"))
    head = list(HEAD)
    if r.random() < 0.3:
        r.shuffle(head)
    for j, c in enumerate(head):
        ws.cell(row=1, column=j + 1, value=c)
    for i, row in enumerate(rows):
        args = {} if row["args"] == [] else row["args"]
        cells = {"user_name": row["user"]}
        for k, p in (("num_users", "n"), ("user_preference", "pref")):
            if row[p] != "":
                cells[k] = int(row[p])
        for p, s in args.items():
            if p == "power":
                if row["how"] == "number":
                    cells[p] = json.loads(s) if r.random() < 0.6 else float(s)
                else:
                    cells[p] = series_cell(wb, row["how"], SERIES[s], r)
            elif s.startswith("["):
                cells[p + "_start"], cells[p + "_end"] = json.loads(s)
            elif p in rec_model.TEXTS:
                cells[p] = s
            else:
                cells[p] = json.loads(s)
        for p in row["half"]:
            cells[p + r.choice(("_start", "_end"))] = r.choice((0, 60, 1440))
        for c, v in cells.items():
            if v != "":
                ws.cell(row=i + 2, column=head.index(c) + 1, value=v)
    wb.save(path)


def play(rows, m, seed, out):
    r = R.Random("sheet%d-%d" % (seed, m))
    path = os.path.join(os.environ.get("TMPDIR", "/tmp"), "sheet-%d-%d.xlsx" % (os.getpid(), m))
    e = dict(m=m, rows=rows, res="ok", users=[], daily="")
    with guard(60):
        write(rows, path, r)
    try:
        with guard(60):
            uc = UseCase()
            uc.load(path)
            for u in uc.users:
                e["users"].append(dict(name=u.user_name if isinstance(u.user_name, str) else repr(u.user_name), n=num(u.num_users),
                                       pref=num(u.user_preference), apps=[rec_model.par(a) for a in u.App_list]))
            if rows[0].get("daily"):
                uc.date_start, uc.date_end = "2024-01-01", "2024-12-31"
                uc.initialize(force=True)
                prof = np.asarray(uc.generate_daily_load_profiles(flat=False))
                e["daily"] = canon("power", [v[r.randint(0, 1439)] for v in prof])
    except Exception as x:
        e["res"] = "hang" if isinstance(x, Hang) else "refused"
        e["msg"] = "%s %s" % (type(x).__name__, str(x)[:200])
    finally:
        os.remove(path)
    out(e)


def main():
    scripts = json.load(open(sys.argv[1]))
    seed, nproc, path = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]

    def work(i, part):
        with open("%s.%d" % (path, i), "w") as f:
            for m in part:
                play(scripts[m], m, seed, lambda e: f.write(json.dumps(e) + "\n"))

    sys.exit(1 if shards(nproc, work, list(range(len(scripts)))) else 0)


if __name__ == "__main__":
    main()
