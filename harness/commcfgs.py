"""Small communities for the exhaustive exploration of Community.tla."""


def app(u, num=1, flat=False, win=((0, 2),), ft=1, occ=1000, wd=2, pref=0, pw=(1,)):
    w = [list(x) for x in win] + [[0, 0]] * (3 - len(win))
    return dict(u=u, num=num, flat=flat, win=w, ft=ft, occ=occ, wd=wd, pref=pref, pw=list(pw), rv=0)


def com(users, apps, day=4, ord=5, days=2):
    return dict(day=day, ord=ord, days=days, users=[dict(n=n, pref=p) for n, p in users], apps=apps)


def comms(tier):
    C = []
    C.append(com([(2, 0)], [app(1, win=((0, 3),), ft=2), app(1, flat=True, win=((1, 4),), num=2)], days=1))
    C.append(com([(1, 0), (2, 0)], [app(1, win=((0, 2),)), app(2, win=((1, 4),), num=3), app(2, flat=True, win=((0, 1), (3, 4)))], days=1))
    C.append(com([(2, 2)], [app(1, flat=True, pref=1), app(1, flat=True, pref=2), app(1, win=((2, 4),), pref=1)], days=1))
    C.append(com([(3, 3)], [app(1, flat=True, pref=k) for k in (1, 2, 3)] + [app(1, flat=True, pref=2, win=((2, 4),))], days=1))
    C.append(com([(2, 0)], [app(1, flat=True, pref=1), app(1, flat=True, occ=500), app(1, win=((1, 3),), occ=500)], days=1))
    C.append(com([(1, 0)], [app(1, flat=True, wd=0, pw=(3, 4, 5, 6)), app(1, wd=1, win=((1, 3),), pw=(7, 8, 9, 10))], ord=4, days=4))
    C.append(com([(1, 0)], [app(1, ft=0), app(1, flat=True, occ=0), app(1, win=((0, 2), (2, 4)), ft=2)], days=2))
    if tier == "thorough":
        C.append(com([(2, 2), (1, 1)], [app(1, flat=True, pref=1), app(1, win=((0, 3),), ft=1, pref=2), app(2, win=((1, 4),), ft=2, pref=1), app(2, flat=True, occ=500)], days=1))
        C.append(com([(3, 0)], [app(1, win=((0, 4),), ft=2), app(1, win=((1, 4),), num=2)], days=1))
    return C
