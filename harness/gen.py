"""Random appliance declarations, in integer units (minutes, percent, mW)."""


def pick_windows(r, small=False):
    """1..3 declared windows of various shapes, as [start, end]."""
    nw = r.choice((1, 1, 2, 2, 3))
    style = r.choice(("spread", "spread", "touch", "overlap", "unordered", "edges", "tiny", "full"))
    D = 90 if small else 1440
    base = r.randrange(0, 1440 - D + 1) if small else 0
    if r.random() < 0.2:
        base = r.choice((0, 1440 - D))
    if style == "full":
        return [[base, base + D]]
    if style == "tiny":
        w = []
        for _ in range(nw):
            a = base + r.randrange(0, D - 12)
            w.append([a, a + r.randrange(1, 12)])
        return w
    if style == "edges":
        a = r.randrange(1, max(2, D // 3))
        w = [[base, base + a]]
        if nw > 1:
            w.append([base + D - r.randrange(1, D // 3), base + D])
        return w
    if style == "overlap":
        a = base + r.randrange(0, D // 2)
        w = []
        for _ in range(nw):
            b = min(base + D, a + r.randrange(2, D // 2))
            w.append([a, b])
            a = r.randrange(a, b)
        return w
    cuts = sorted(r.sample(range(base, base + D + 1), 2 * nw))
    w = [[cuts[2 * i], cuts[2 * i + 1]] for i in range(nw)]
    if style == "touch":
        for i in range(1, nw):
            w[i][0] = w[i - 1][1]
    if style == "unordered":
        r.shuffle(w)
    return w


def appliance(r, prop):
    small = prop in ("C08",) or r.random() < 0.4
    win = pick_windows(r, small)
    total = sum(b - a for a, b in win)
    d = dict(win=win, rw=0, ft=0, tv=0, fc=1, num=1, fixed=False, flat=False, p=[100000], th=0, occ=1000, wd=2, cyc=[],
             nc=0, cont=True)
    union = len({m for a, b in win for m in range(a, b)})
    d["rw"] = r.choice((0, 0, 0, 5, 10, 25, 35, 50, 80, 100) if prop == "C01" else (0, 0, 0, 10, 35, 60))
    d["ft"] = max(1, min(total, r.choice((1, 2, 5, total // 10, total // 4, total // 2, (9 * total) // 10, total))))
    d["tv"] = r.choice((0, 0, 10, 20, 35, 50, 100))
    room = max(1, (99 * union) // 100)
    d["fc"] = max(0, min(room, r.choice((1, 1, 0, 2, 3, 5, 10, 30, d["ft"], d["ft"] + 7, d["ft"] // 2, room))))
    d["num"] = r.choice((1, 1, 2, 3, 5, 8, 12))
    d["fixed"] = r.random() < 0.3
    d["p"] = [r.choice((1000, 7000, 60000, 100000, 13370))]
    if r.random() < (0.6 if prop in ("C04", "C07", "C12") else 0.2):
        base = r.choice((20000, 50000))
        d["p"] = [base + 1000 * i for i in range(r.choice((7, 10, 366)))]
    if prop in ("C01", "C07") and r.random() < (0.25 if prop == "C01" else 1):
        if prop == "C07" and r.random() < 0.2:
            cycles(r, d)
        d["flat"] = True
    if prop == "C07":
        # none of these may matter
        d["th"] = r.choice((0, 10, 30))
        d["fixed"] = r.random() < 0.5
        d["cont"] = r.random() < 0.5
    if prop == "C04":
        d["th"] = r.choice((0, 0, 0, 5, 10, 30))
    if prop == "C05":
        d["fixed"] = False
        d["num"] = r.choice((2, 3, 4, 5, 6, 8, 10, 11, 15, 20))
        d["ft"] = max(1, min(total, max(d["ft"], total // 3)))
        d["fc"] = min(room, r.choice((1, 2, 3, 10, 20)))
    if prop == "C03":
        d["num"] = r.choice((1, 2, 8, 20, 50))
        d["fixed"] = r.random() < 0.2
    if prop == "C08":
        cycles(r, d)
    elif prop in ("C01", "C02") and r.random() < 0.15 and not d["flat"]:
        cycles(r, d)
        d["num"] = 1
    return d


def cycles(r, d):
    lo = min(a for a, b in d["win"])
    hi = max(b for a, b in d["win"])
    d["flat"] = False
    d["nc"] = r.choice((1, 1, 2, 2, 3))
    d["cont"] = r.random() < 0.6
    d["fixed"] = r.random() < 0.2
    d["num"] = r.choice((1, 1, 2, 3))
    d["ft"] = max(1, min(d["ft"], 60))
    d["fc"] = min(d["fc"], r.choice((1, 1, 2, 3, 5, 10)))
    d["th"] = r.choice((0, 0, 0, 0, 10)) if d["nc"] < 3 else 0
    lv = [2000, 5000, 11000, 17000, 23000, 31000]
    k = 0
    if d["nc"] == 1:
        parts = [None if r.random() < 0.4 else [lo, hi]]
    else:
        m = sorted(r.sample(range(lo, hi + 1), min(hi - lo + 1, 2))) if hi - lo > 1 else [lo, hi]
        if d["nc"] == 2:
            parts = r.choice(([[lo, m[0]], [m[0], hi]], [[lo, m[0]], [m[1], hi]], [[m[0], m[1]], [lo, hi]], [[lo, m[1]], [m[0], hi]]))
        else:
            parts = [[lo, m[0]], [m[0], m[1]], [m[1], hi]]
            r.shuffle(parts)
    for i in range(d["nc"]):
        w = parts[i]
        ws = None if w is None else [w]
        if w is not None and w[1] - w[0] > 4 and r.random() < 0.3:
            c = r.randrange(w[0] + 1, w[1] - 1)
            ws = [[w[0], c], [c + 1, w[1]]]
        t1, t2 = r.choice((1, 1, 2, 3, 5, 9)), r.choice((1, 1, 2, 3, 4))
        if r.random() < 0.06:
            t2 = 0
        rc = r.choice((0, 0, 25, 50)) if d["nc"] < 3 else 0
        d["cyc"].append(dict(w=ws, t1=t1, p1=lv[k], t2=t2, p2=lv[k + 1], rc=rc))
        k += 2
    return d


def kwargs(d, np=None, pd=None):
    """Arguments of User.add_appliance for a declaration."""
    kw = dict(number=d["num"], num_windows=len(d["win"]), func_time=d["ft"],
              time_fraction_random_variability=d["tv"] / 100.0, func_cycle=d["fc"], fixed="yes" if d["fixed"] else "no",
              fixed_cycle=d["nc"], continuous_duty_cycle=1 if d["cont"] else 0, occasional_use=d["occ"] / 1000.0,
              flat="yes" if d["flat"] else "no", thermal_p_var=d["th"] / 100.0, pref_index=d.get("pref", 0),
              wd_we_type=d["wd"], name=d.get("name", "a"), random_var_w=d["rw"] / 100.0)
    if len(d["p"]) == 1:
        kw["power"] = d["p"][0] / 1000.0
    else:
        kw["power"] = pd.DataFrame([x / 1000.0 for x in d["p"]])
    for i, w in enumerate(d["win"]):
        kw["window_%d" % (i + 1)] = list(w)
    for i, q in enumerate(d["cyc"]):
        n = i + 1
        kw["p_%d1" % n], kw["p_%d2" % n] = q["p1"] / 1000.0, q["p2"] / 1000.0
        kw["t_%d1" % n], kw["t_%d2" % n] = q["t1"], q["t2"]
        kw["r_c%d" % n] = q["rc"] / 100.0
        if q["w"] is not None:
            kw["cw%d1" % n] = list(q["w"][0])
            if len(q["w"]) > 1:
                kw["cw%d2" % n] = list(q["w"][1])
    return kw
