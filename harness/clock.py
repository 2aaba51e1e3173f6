"""A clock of our own for the code under test: time passes only when the harness says so."""
import contextlib
import sys
import time
import types

REAL = (time.time, time.monotonic, time.perf_counter)
REAL_NS = (time.time_ns, time.monotonic_ns, time.perf_counter_ns)


class Clock:
    def __init__(self, start=1_700_000_000.0):
        self.now = start
        self.real = False

    def __call__(self):
        return REAL[0]() if self.real else self.now

    def advance(self, seconds):
        self.now += seconds


CLOCK = Clock()


class Face:
    """One of the standard clocks: they agree on durations, but each counts from its own origin."""

    def __init__(self, k, since, ns=False):
        self.k, self.since, self.ns = k, since, ns

    def __call__(self):
        if CLOCK.real:
            return (REAL_NS if self.ns else REAL)[self.k]()
        now = CLOCK.now - self.since
        return round(now * 10**9) if self.ns else now


SINCE = (0, 1_699_990_000.0, 1_699_000_000.0)
NAMES = ("time", "monotonic", "perf_counter")
FACES = {n: Face(k, SINCE[k]) for k, n in enumerate(NAMES)}
FACES.update({n + "_ns": Face(k, SINCE[k], True) for k, n in enumerate(NAMES)})


def install():
    """Replaces the clocks that the hyperpack modules use (forked workers inherit it)."""
    proxy = types.ModuleType("time")
    proxy.__dict__.update(time.__dict__)
    proxy.__dict__.update(FACES)
    given = dict(zip(REAL + REAL_NS, list(NAMES) + [n + "_ns" for n in NAMES]))
    n = 0
    for name, mod in list(sys.modules.items()):
        if name == "hyperpack" or name.startswith("hyperpack."):
            for key, value in list(vars(mod).items()):
                if value is time:
                    setattr(mod, key, proxy)
                    n += 1
                    continue
                for real_one, face in given.items():
                    if value is real_one:
                        setattr(mod, key, FACES[face])
                        n += 1
    return n


def spending(share, limit, evaluations):
    """For a Recorder: the evaluations together take the given share of the limit."""
    tick = share * limit / max(1, evaluations)
    return lambda entry, inst: CLOCK.advance(tick)


@contextlib.contextmanager
def real(on=True):
    """The real clock (for worker processes that do not inherit ours)."""
    CLOCK.real = on
    try:
        yield
    finally:
        CLOCK.real = False


@contextlib.contextmanager
def running(monotonic=True):
    """Also for code that looks the clock up while it runs (not monotonic where processes wait with timeouts)."""
    names = ("time", "monotonic", "perf_counter") if monotonic else ("time", "perf_counter")
    saved = {n: getattr(time, n) for n in names}
    try:
        for n in names:
            setattr(time, n, FACES[n])
        yield
    finally:
        for n, f in saved.items():
            setattr(time, n, f)
