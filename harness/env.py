"""Common part of the drivers: ramp imported from /repo with steerable draws, quiet, watched."""
import sys, os, io, gc, json, signal, warnings, contextlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rng  # before ramp

sys.path.insert(0, os.environ.get("RAMP_REPO", "/repo"))
warnings.simplefilter("ignore")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("BROWSER", "true")
import numpy as np
import pandas as pd

with contextlib.redirect_stdout(io.StringIO()):
    import ramp
    from ramp import UseCase, User, Appliance
warnings.simplefilter("ignore")


class Hang(Exception):
    pass


_hangs = []


def _alarm(*_):
    _hangs.append(1)
    raise Hang("no answer in time")


# time of the processor, so that a busy machine does not look like an endless run; and much later any time, for runs which sleep
signal.signal(signal.SIGPROF, _alarm)
signal.signal(signal.SIGALRM, _alarm)


_limit = [700]


def tidy():
    """PyPy does not see how much memory arrays hold; collect before the workers fill the machine together."""
    with open("/proc/self/statm") as f:
        held = int(f.read().split()[1]) // 256
    if held > _limit[0]:
        gc.collect()
        with open("/proc/self/statm") as f:
            _limit[0] = max(700, int(f.read().split()[1]) // 256 * 3 // 2)


@contextlib.contextmanager
def guard(seconds=60):
    """Silence output and turn an endless run into an exception."""
    out, err = sys.stdout, sys.stderr
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    # once runs do not end, there is no need to wait as long for the next ones
    signal.setitimer(signal.ITIMER_PROF, seconds if len(_hangs) < 2 else max(5, seconds / 8))
    signal.alarm(400)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
        sys.stdout, sys.stderr = out, err
        tidy()


def describe(exc):
    return {"type": type(exc).__name__, "msg": str(exc)[:200]}


FIT_MSG = "func_cycle"


def error_kind(exc):
    """fit: the documented error about the minimum cycle; hang; other"""
    if isinstance(exc, Hang):
        return "hang"
    if type(exc) is ValueError and FIT_MSG in str(exc):
        return "fit"
    return "crash"


def runs_of(row):
    """Maximal runs [start, end, milliwatts] of the nonzero minutes of a profile.

    Returns (runs, ok); ok is False when a value is not finite, negative or the row has a wrong size."""
    a = np.asarray(row, dtype=float)
    if a.ndim != 1 or a.shape[0] != 1440:
        return [], False
    if not np.isfinite(a).all() or (a < 0).any() or (a > 2.0e6).any():
        return [], False
    m = a * 1000.0
    cut = np.flatnonzero(np.diff(m)) + 1
    starts = [0] + cut.tolist()
    ends = cut.tolist() + [a.shape[0]]
    runs = []
    for s, e in zip(starts, ends):
        v = float(m[s])
        if v == 0.0:
            continue
        r = int(round(v))
        if v < 0.5:
            r = 2  # nonzero but less than the marker: never legitimate
        elif abs(v - r) > 1e-4 and v < 10:
            r = 2
        runs.append([s, e, r])
    return runs, True


def merged(runs):
    """Join neighbouring runs which became equal by rounding to milliwatts."""
    out = []
    for s, e, v in runs:
        if out and out[-1][1] == s and out[-1][2] == v:
            out[-1][1] = e
        else:
            out.append([s, e, v])
    return out


def shards(n, work, items):
    """Run work(shard index, list of items) in n forked processes; each writes its own files."""
    parts = [items[i::n] for i in range(n)]
    pids = []
    for i in range(n):
        if not parts[i]:
            continue
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                work(i, parts[i])
                code = 0
            except BaseException:
                import traceback

                traceback.print_exc()
                x = sys.exc_info()
                last = traceback.extract_tb(x[2])[-1]
                if os.path.abspath(last.filename).startswith(os.path.join(os.path.abspath(os.environ.get("RAMP_REPO", "/repo")), "ramp") + os.sep):
                    print("\n@@FAILED %s %s (%s)" % (type(x[1]).__name__, str(x[1])[:200], last.name), file=sys.stderr)
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids.append(pid)
    bad = 0
    for p in pids:
        _, st = os.waitpid(p, 0)
        if st != 0:
            bad += 1
    return bad
