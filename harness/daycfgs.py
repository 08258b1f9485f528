"""Small configurations for the exhaustive exploration of ApplianceDay.tla and of the real code."""
import json
import sys


def cfg(day=8, win=((2, 7),), rw=0, ft=3, tv=0, fc=1, num=1, fixed=False, flat=False, p=1000,
        kon=None, koff=None, pk=(100, 100), cyc=(), cont=True, occ=1, grid=2):
    """rw, tv in percent, p in mW"""
    w = [list(x) for x in win] + [[0, 0]] * (3 - len(win))
    rvs = [rw * (x[1] - x[0]) // 100 for x in w]
    full = [num] if fixed else list(range(1, num + 1)) or [0]
    return dict(day=day, win=w, rv=rvs, tlo=ft * (100 - tv) // 100, thi=ft * (100 + tv) // 100, fc=fc, num=num,
                fixed=fixed, flat=flat, p=p, th=0, kon=list(kon) if kon else full, koff=list(koff) if koff else full,
                pk=list(pk), cyc=list(cyc), cont=cont, skip=occ < 1, run=occ > 0,
                py=dict(nw=len(win), ft=ft, tv=tv / 100.0, occ=occ, rw=rw / 100.0, grid=grid))


def cyc(w, t1, pa, t2, pb, rc=0, sw=False):
    """rc in percent; a part lasts t*(1-rc)..t*(1+rc) truncated"""
    rng = lambda t: [t * (100 - rc) // 100, t * (100 + rc) // 100]
    return dict(w=[list(x) for x in w], a=rng(t1), pa=pa, b=rng(t2), pb=pb, sw=sw, t1=t1, t2=t2, rc=rc / 100.0)


def fits(c):
    return sum(b - a for a, b in c["win"]) >= c["py"]["ft"]


def families(tier):
    F = {}
    deep = tier == "thorough"
    wins = [((2, 7),), ((0, 4),), ((4, 8),), ((0, 3), (4, 8)), ((0, 3), (3, 6)), ((0, 4), (2, 7)), ((5, 8), (1, 3)),
            ((0, 2), (3, 5), (6, 8))]
    F["windows"] = [cfg(win=w, rw=rw, ft=1, fc=fc, occ=0.5)
                    for w in wins for rw in (0, 34, 50, 80) for fc in (1, 2)]
    F["flat"] = [cfg(win=w, rw=rw, ft=2, fc=1, flat=True, num=n, p=1000 + 7 * rw, occ=occ) for w in wins for rw in (0, 50, 100)
                 for n, occ in ((1, 1), (3, 0.5))]
    F["budget"] = [cfg(win=w, ft=ft, tv=tv, fc=fc, rw=rw, grid=4 if tv else 1) for w in wins[:6] for ft, tv in ((1, 0), (3, 0), (2, 80), (5, 0), (3, 50))
                   for fc in (0, 1, 2, 3) for rw in ((0, 34) if fc == 2 and tv == 0 else (0,))]
    F["skip"] = [cfg(win=w, rw=rw, ft=ft, fc=1, occ=occ, flat=fl, grid=4) for w in wins[:3] for rw in (0, 34) for occ in (0, 0.5, 1)
                 for ft in (1,) for fl in (False, True)]
    F["errors"] = [cfg(win=w, ft=1, fc=fc, rw=rw) for w in wins for fc in (2, 3, 4, 5, 7, 9) for rw in (0, 34)]
    F["events"] = [cfg(win=w, ft=ft, fc=fc, num=2, fixed=True) for w in (((1, 7),), ((0, 3), (3, 6)), ((0, 4), (5, 8)), ((4, 7), (1, 3)), ((0, 2), (3, 5), (6, 8)))
                   for ft in (2, 3, 4, 5) for fc in (1, 2, 3)]
    F["units"] = [cfg(day=7, win=w, ft=3, fc=fc, num=n, fixed=fx, pk=pk, grid=6)
                  for w in (((1, 5),), ((0, 2), (4, 6)))
                  for fc in (1, 2) for n, fx in ((2, False), (3, False), (2, True))
                  for pk in ((3, 4), (0, 1), (90, 99))]
    F["units"] += [cfg(win=((1, 5),), ft=3, num=0, fixed=fx, grid=2) for fx in (False, True)]
    cy = []
    for cont in (True, False):
        cy.append(cfg(win=((1, 7),), ft=4, fc=1, cont=cont, cyc=[cyc([(1, 7)], 1, 2000, 1, 5000)]))
        cy.append(cfg(win=((1, 7),), ft=4, fc=2, cont=cont, cyc=[cyc([(1, 7)], 2, 2000, 1, 5000, rc=25)]))
        cy.append(cfg(win=((1, 7),), ft=5, fc=3, cont=cont, cyc=[cyc([(1, 7)], 1, 2000, 1, 5000)]))
        cy.append(cfg(win=((0, 7),), ft=3, fc=1, cont=cont, num=2,
                      cyc=[cyc([(0, 2), (0, 0)], 1, 2000, 1, 5000), cyc([(5, 7)], 2, 11000, 1, 17000)], grid=4))
        cy.append(cfg(win=((0, 3), (4, 8)), ft=4, fc=1, cont=cont,
                      cyc=[cyc([(1, 3), (6, 8)], 1, 2000, 1, 5000), cyc([(4, 6)], 2, 11000, 1, 17000)]))
        cy.append(cfg(win=((1, 6),), ft=3, fc=1, cont=cont,
                      cyc=[cyc([(1, 2)], 1, 2000, 2, 5000, sw=True), cyc([(4, 4), (5, 6)], 2, 11000, 1, 17000, sw=True),
                           cyc([(0, 0)], 1, 23000, 1, 31000, sw=True)]))
        cy.append(cfg(win=((1, 6),), ft=3, tv=34, fc=1, cont=cont, rw=20, cyc=[cyc([(1, 6)], 2, 2000, 1, 5000)]))
    # every one of the six windows of cycles alone, and overlapping ones
    part = lambda k, w: cyc(w, 1, (2000, 11000, 23000)[k], 1, (5000, 17000, 31000)[k], sw=True)
    for cont in (True, False):
        for k in range(3):
            for j in range(2):
                w = [[(0, 0), (0, 0)] for _ in range(3)]
                w[k][j] = (4, 6)
                cy.append(cfg(win=((1, 8),), ft=3, fc=3 if cont else 2, cont=cont, cyc=[part(i, w[i]) for i in range(3)]))
        cy.append(cfg(win=((1, 8),), ft=3, fc=2, cont=cont, cyc=[part(0, [(0, 0), (2, 3)]), part(1, [(7, 8), (3, 5)]), part(2, [(4, 6), (5, 7)])]))
        cy.append(cfg(win=((0, 7),), ft=2, fc=2, cont=cont, cyc=[part(0, [(6, 7), (5, 5)]), part(1, [(3, 5), (6, 7)]), part(2, [(1, 2), (5, 6)])]))
    F["cycles"] = cy
    if deep:
        F["windows"] += [cfg(day=10, win=w, rw=rw, ft=3, fc=fc) for w in (((1, 9),), ((0, 4), (5, 10)), ((1, 4), (3, 6), (6, 9)))
                         for rw in (25, 50, 100) for fc in (1, 2)]
        F["budget"] += [cfg(day=10, win=w, ft=ft, tv=tv, fc=fc) for w in (((0, 9),), ((0, 4), (4, 9)), ((0, 5), (3, 10)))
                        for ft, tv in ((5, 0), (4, 40), (8, 10)) for fc in (1, 2, 3)]
        F["events"] += [cfg(day=10, win=w, ft=ft, fc=fc) for w in (((0, 9),), ((0, 4), (4, 9)), ((0, 5), (6, 10)))
                        for ft in (4, 5, 6) for fc in (1, 2, 3)]
        F["units"] += [cfg(day=8, win=w, ft=4, fc=fc, num=3, pk=pk, grid=6) for w in (((0, 8),), ((0, 4), (4, 8)))
                       for fc in (1, 2, 3) for pk in ((3, 4), (0, 0), (7, 9))]
        for cont in (True, False):
            F["cycles"].append(cfg(day=9, win=((0, 9),), ft=5, tv=20, fc=2, num=2, cont=cont, grid=4,
                                   cyc=[cyc([(0, 2), (7, 8)], 2, 2000, 1, 5000, rc=25), cyc([(4, 5)], 2, 11000, 1, 17000)]))
    for k in F:
        F[k] = [c for c in F[k] if fits(c)]
    return F


def shifted(c, off):
    """The same configuration at another place of a full day."""
    sh = lambda w: [w[0] + off, w[1] + off] if w[0] != w[1] else list(w)
    d = json.loads(json.dumps(c))
    d["day"] = 1440
    d["win"] = [sh(w) for w in c["win"]]
    d["pk"] = [c["pk"][0] + off, c["pk"][1] + off]
    for q in d["cyc"]:
        q["w"] = [sh(w) for w in q["w"]]
    d["off"] = off
    return d


def touches_zero(c):
    return any(w[0] - r < 0 for w, r in zip(c["win"], c["rv"]) if w[0] != w[1])


def placed(cs, seed=0):
    """Place small configurations in the full day: at the start, at the end or in the middle of it."""
    out = []
    for i, c in enumerate(cs):
        offs = (0, 1440 - c["day"], 600)
        for off in ({offs[(i + seed) % 3]} if c["rv"] == [0, 0, 0] else {offs[(i + seed) % 3], offs[(i + seed + 1) % 3]}):
            out.append(shifted(c, off))
    return out


if __name__ == "__main__":
    F = families(sys.argv[2] if len(sys.argv) > 2 else "quick")
    print({k: len(v) for k, v in F.items()})
    cs = F[sys.argv[1]]
    if len(sys.argv) > 4:
        cs = placed(cs)
    json.dump(cs, open(sys.argv[3], "w"))
