"""Steering of the draws made through Python's `random`.

Importing this module (before ramp) replaces the functions of the `random` module by wrappers
which delegate to the current mode.  The default mode is the real generator, so other users of
`random` are unaffected.  Steering only chooses *which* outcomes of the draws are explored.
"""
import random as _r

_inst = _r._inst
_orig = {
    n: getattr(_r, n)
    for n in ("random", "uniform", "randint", "randrange", "choice", "gauss", "normalvariate",
              "shuffle", "sample", "getrandbits", "choices", "triangular", "seed")
}


class Plain:
    """The real generator."""

    def __init__(self, seed=None):
        if seed is not None:
            _orig["seed"](seed)

    def u(self, a, b):
        return _orig["uniform"](a, b)

    def i(self, n):
        return _orig["randrange"](n)

    def g(self, mu, sigma):
        return _orig["gauss"](mu, sigma)


class Extreme:
    """Draws which are often at the borders of their range."""

    def __init__(self, seed, p=0.5):
        self.r = _r.Random(seed)
        self.p = p

    def u(self, a, b):
        if self.r.random() < self.p:
            e = (b - a) * 1e-9
            return self.r.choice((a + e, b - e))
        return a + (b - a) * self.r.random()

    def i(self, n):
        if self.r.random() < self.p:
            return self.r.choice((0, n - 1))
        return self.r.randrange(n)

    def g(self, mu, sigma):
        if self.r.random() < self.p:
            return mu + self.r.choice((-3.5, -2, -1, 0, 1, 2, 3.5)) * sigma
        return self.r.gauss(mu, sigma)


class Forced(Extreme):
    """Continuous draws at a fixed fraction / a fixed sequence of deviations, choices free."""

    def __init__(self, seed, f=None, zs=None, p=0.3):
        super().__init__(seed, p)
        self.f = f
        self.zs = zs
        self.k = 0
        self.log = []

    def u(self, a, b):
        if self.f is None:
            return super().u(a, b)
        return a + (b - a) * self.f

    def g(self, mu, sigma):
        if self.zs is None:
            return super().g(mu, sigma)
        z = self.zs[min(self.k, len(self.zs) - 1)]
        self.k += 1
        return mu + z * sigma


class Tree:
    """Depth-first enumeration of every outcome of the draws (continuous ones on a grid)."""

    def __init__(self, grid=2):
        self.path = []
        self.pos = 0
        self.grid = grid
        self.truncated = False

    def _pick(self, n):
        if n <= 1:
            return 0
        if self.pos == len(self.path):
            self.path.append([0, n])
        e = self.path[self.pos]
        if e[1] != n:
            # the code is not a function of its draws
            raise RuntimeError("draws are not reproducible")
        self.pos += 1
        return e[0]

    def begin(self):
        self.pos = 0

    def advance(self):
        del self.path[self.pos:]
        while self.path:
            self.path[-1][0] += 1
            if self.path[-1][0] < self.path[-1][1]:
                return True
            self.path.pop()
        return False

    def i(self, n):
        return self._pick(n)

    def u(self, a, b):
        if a == b:
            return a
        lo, hi = min(a, b), max(a, b)
        pts = []
        if hi - lo <= 1:
            n = self.grid
            pts = [lo + (hi - lo) * (2 * j + 1) / (2.0 * n) for j in range(n)]
        else:
            import math

            x = math.floor(lo * 4)
            while x < hi * 4:
                m = (x + 0.5) / 4.0
                if lo < m < hi:
                    pts.append(m)
                x += 2
        return pts[self._pick(len(pts))]

    def g(self, mu, sigma):
        zs = (-2.5, -1.6, -1.1, -0.7, -0.3, 0.3, 0.7, 1.1, 1.6, 2.5)
        return mu + zs[self._pick(len(zs))] * sigma if sigma else mu


_mode = Plain()


def set_mode(m):
    global _mode
    _mode = m
    return m


def plain(seed=None):
    return set_mode(Plain(seed))


def _is_plain():
    return type(_mode) is Plain


def uniform(a, b):
    return _mode.u(a, b)


def random():
    return _orig["random"]() if _is_plain() else min(_mode.u(0.0, 1.0), 1.0 - 2.0 ** -53)


def randint(a, b):
    if _is_plain():
        return _orig["randint"](a, b)
    if b < a:
        return _orig["randint"](a, b)
    return a + _mode.i(b - a + 1)


def randrange(start, stop=None, step=1):
    if _is_plain():
        return _orig["randrange"](start) if stop is None else _orig["randrange"](start, stop, step)
    rng = range(start) if stop is None else range(start, stop, step)
    return rng[_mode.i(len(rng))]


def choice(seq):
    return _orig["choice"](seq) if _is_plain() else seq[_mode.i(len(seq))]


def gauss(mu=0.0, sigma=1.0):
    return _orig["gauss"](mu, sigma) if _is_plain() else _mode.g(mu, sigma)


def normalvariate(mu=0.0, sigma=1.0):
    return _orig["normalvariate"](mu, sigma) if _is_plain() else _mode.g(mu, sigma)


for _n in ("uniform", "random", "randint", "randrange", "choice", "gauss", "normalvariate"):
    setattr(_r, _n, globals()[_n])
