"""A stand-in for multiprocessing.Pool whose workers follow a given schedule, in this process.

Every task is copied (pickled) to its worker, every worker has its own random generator state,
results come back in the order in which the schedule lets the workers finish.
"""
import multiprocessing, multiprocessing.pool, pickle, random

_real = multiprocessing.Pool
_cfg = None
stats = {"tasks": 0, "chunks": 0}


def install(seed, schedule=None, workers=None):
    global _cfg
    _cfg = dict(seed=seed, schedule=schedule, workers=workers)
    stats["tasks"] = stats["chunks"] = 0
    multiprocessing.Pool = FakePool


def remove():
    multiprocessing.Pool = _real


class _Async:
    def __init__(self, v):
        self.v = v

    def get(self, timeout=None):
        if isinstance(self.v, _Err):
            raise self.v.e
        return self.v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return not isinstance(self.v, _Err)


class _Err:
    def __init__(self, e):
        self.e = e


class FakePool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, *a, **k):
        self.r = random.Random(_cfg["seed"])
        self.sched = list(_cfg["schedule"] or [])
        n = _cfg["workers"] or self.r.choice((1, 2, 3, 5))
        self.n = n
        # like freshly forked processes, which seed their generator anew
        self.states = [random.Random(_cfg["seed"] * 100 + i).getstate() for i in range(n)]
        self.init = (initializer, initargs)
        if initializer is not None:
            for w in range(n):
                self._as(w, lambda: initializer(*initargs))

    def _as(self, w, f):
        keep = random.getstate()
        random.setstate(self.states[w])
        try:
            return f()
        finally:
            self.states[w] = random.getstate()
            random.setstate(keep)

    def _chunk(self, w, func, items, star):
        def go():
            res = []
            # one message per chunk, as the real pool sends it
            f, its = pickle.loads(pickle.dumps((func, items)))
            for it in its:
                try:
                    res.append(f(*it) if star else f(it))
                except Exception as e:
                    res.append(_Err(e))
            # and one message with all its results
            return pickle.loads(pickle.dumps(res))

        return self._as(w, go)

    def _run(self, func, iterable, chunksize, star):
        """Runs everything; returns results by index and the order in which chunks finished."""
        items = list(iterable)
        stats["tasks"] += len(items)
        cs = max(1, chunksize or max(1, len(items) // (4 * self.n) or 1))
        chunks = [items[i:i + cs] for i in range(0, len(items), cs)]
        stats["chunks"] += len(chunks)
        nxt, busy, order, results = 0, {}, [], {}
        k = 0
        while len(order) < len(chunks):
            acts = [("take", w) for w in range(self.n) if w not in busy and nxt < len(chunks)]
            acts += [("finish", w) for w in busy]
            act = None
            while k < len(self.sched) and act is None:
                cand = (self.sched[k][0], self.sched[k][1])
                k += 1
                if cand in acts:
                    act = cand
            if act is None:
                act = self.r.choice(acts)
            if act[0] == "take":
                busy[act[1]] = nxt
                nxt += 1
            else:
                c = busy.pop(act[1])
                results[c] = self._chunk(act[1], func, chunks[c], star)
                order.append(c)
        return [results[c] for c in range(len(chunks))], order

    def imap(self, func, iterable, chunksize=1):
        res, _ = self._run(func, iterable, chunksize, False)
        return self._iter([x for c in res for x in c])

    def imap_unordered(self, func, iterable, chunksize=1):
        res, order = self._run(func, iterable, chunksize, False)
        return self._iter([x for c in order for x in res[c]])

    def _iter(self, vals):
        return _It(vals)

    def map(self, func, iterable, chunksize=None):
        return list(self._iter([x for c in self._run(func, iterable, chunksize, False)[0] for x in c]))

    def starmap(self, func, iterable, chunksize=None):
        return list(self._iter([x for c in self._run(func, iterable, chunksize, True)[0] for x in c]))

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        v = self.map(func, iterable, chunksize)
        if callback:
            callback(v)
        return _Async(v)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        v = self.starmap(func, iterable, chunksize)
        if callback:
            callback(v)
        return _Async(v)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        w = self.r.randrange(self.n)
        stats["tasks"] += 1

        def go():
            f, a, k = pickle.loads(pickle.dumps((func, args, kwds)))
            try:
                return pickle.loads(pickle.dumps(f(*a, **k)))
            except Exception as e:
                return _Err(e)

        v = self._as(w, go)
        if isinstance(v, _Err):
            if error_callback:
                error_callback(v.e)
        elif callback:
            callback(v)
        return _Async(v)

    def close(self):
        pass

    def join(self):
        pass

    def terminate(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _It:
    def __init__(self, vals):
        self.vals = vals
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.i >= len(self.vals):
            raise StopIteration
        v = self.vals[self.i]
        self.i += 1
        if isinstance(v, _Err):
            raise v.e
        return v

    def next(self, timeout=None):
        return self.__next__()
