"""C38 Problems in different threads do not affect each other."""
import copy
import logging
import os
import sys
import threading

import apiops
import build
import figures
import gen
import solving
from checks import c26
from core import CAPTURE, REPO, check, load

RULE = (
    "2-3 problems, some built from the same dictionaries, each with 1-5 operations of every kind (valid and faulty; now and then a search in "
    "several processes) in a thread of its own, a third of them made by the main thread; a generated schedule hands over between the threads line by line of "
    "the library's code (from every line to every few thousand), and every observation (results, messages, exceptions) has to be the one of the same operations alone; "
    "non-trivial: at least two threads solve, and at least four handovers happened in the middle of operations"
)
ASSUMPTIONS = ["handovers between lines (as seen by the interpreter's tracing), not within one", "one problem is used by one thread only"]
CONFIG = {
    "quick": {"budget_s": 12, "max_examples": 10**6},
    "thorough": {"budget_s": 400, "max_examples": 10**8},
}
HANG_S = 100


class Shown(figures.Light):
    """The figures of each thread by themselves."""

    OWN = threading.local()

    def show(self, *a, **k):
        self.OWN.drawn.append([[(x.get("label") or {}).get("text"), x.get("x0"), x.get("y0"), x.get("x1"), x.get("y1")] for x in self.shapes])


class Told(logging.Handler):
    """The messages that each thread logs."""

    OWN = threading.local()

    def emit(self, record):
        if record.levelno >= logging.INFO:
            self.OWN.__dict__.setdefault("messages", []).append(f"{record.levelname} {record.getMessage()}")

    @classmethod
    def taken(cls):
        return cls.OWN.__dict__.pop("messages", [])


def setup(tier=None, index=None):
    figures.setup()
    logger = logging.getLogger("hyperpack")
    if not any(isinstance(h, Told) for h in logger.handlers):
        logger.addHandler(Told(logging.INFO))
    try:
        import plotly.graph_objects as go
    except ImportError:
        return
    go.Figure = Shown


def strategy(tier):
    return gen.cases(decode)


def decode(s):
    probs = []
    for k in range(s.choice((2, 2, 2, 3))):
        if k and s.flag():
            other = copy.deepcopy(probs[0]["prob"])
            other["kind"] = s.choice(("hp", "pg"))
            other["pp"] = gen.pp_strategy(s)
            probs.append({"prob": other, "shares": s.flag()})
        else:
            prob = gen.problem(s, mix=("micro", "tiny", "small"), max_items=6, max_containers=3, kinds=("hp", "hp", "pg"))
            probs.append({"prob": dict(prob, past=None), "shares": False})
    mp = s.chance(25)
    many = s.chance(20)
    if many:
        more = [[f"more{k}", s.between(1, 3), s.between(1, 3)] for k in range(s.between(20, 60))]
        for x in probs:
            x["prob"]["items"] += copy.deepcopy(more)
        mp = False
    for x in probs:
        x["ops"] = [c26.solving_op(s, x["prob"]) if s.flag() else c26.op(s, x["prob"]) for _ in range(s.between(1, 5))]
        x["moved"] = s.chance(3)
        if many:
            gen.without_searches(x["ops"])
        if mp and x["prob"]["kind"] == "hp":
            x["ops"].append({"op": "hs", "strategies": [gen.POOL, gen.CLASSES], "workers": 2, "orientation": None, "sorting": None, "throttle": True})
            mp = False
    most = s.choice((1, 3, 20, 20, 100, 100, 400, 3000))
    return {"probs": probs, "turns": [s.between(1, most) for _ in range(s.between(1, 12))]}


OURS = {}


class Baton:
    """Lets one thread run at a time, and hands over after as many lines as the schedule says."""

    def __init__(self, n, turns):
        self.turns, self.at = turns, 0
        self.alive = list(range(n))
        self.now = 0
        self.left = turns[0]
        self.handed = 0
        self.cond = threading.Condition()
        self.pid = os.getpid()
        self.root = os.path.join(os.path.realpath(REPO), "hyperpack") + os.sep
        self.lines = 0

    def wait(self, k):
        seen = None
        with self.cond:
            while not self.cond.wait_for(lambda: self.now == k, timeout=3):
                # who has the baton may be blocked by a lock that this one holds
                state = (self.now, self.lines)
                if state == seen:
                    self.now = k
                seen = state

    def next(self, k, done=False):
        with self.cond:
            i = self.alive.index(k)
            others = self.alive[i + 1 :] + self.alive[:i]
            if done:
                self.alive.remove(k)
            elif others:
                self.handed += 1
            if others:
                self.now = others[0]
            self.at = (self.at + 1) % len(self.turns)
            self.left = self.turns[self.at]
            self.cond.notify_all()

    def tracer(self, k):
        def line(frame, event, arg):
            if event == "line" and os.getpid() == self.pid:
                self.left -= 1
                self.lines += 1
                if self.left <= 0:
                    self.next(k)
                    self.wait(k)
            return line

        def call(frame, event, arg):
            if os.getpid() != self.pid:
                return None
            name = frame.f_code.co_filename
            if name not in OURS:
                OURS[name] = os.path.realpath(name).startswith(self.root)
            return line if OURS[name] else None

        return call


def make(x, given):
    items, conts = given
    return apiops.outcome(c26.instance, x["prob"], items, conts)


def perform(x, given, made=None):
    """Everything that can be observed of one problem and its operations."""
    out = []
    e, p = made or make(x, given)
    if e is not None:
        return [[apiops.exc_name(e), Told.taken()]], None
    Told.taken()
    for o in x["ops"]:
        if o.get("workers", 1) > 1:
            apiops.outcome(solving.set_workers, p, o["workers"])
        if o["op"] == "figure":
            Shown.OWN.drawn = []
            e, _ = apiops.outcome(p.create_figure, show=True)
            out.append([apiops.exc_name(e), list(Shown.OWN.drawn)])
        else:
            out.append(c26.perform(p, o))
        out[-1] = [out[-1], Told.taken()]
    return out, p


def inputs(probs):
    """What each problem is built from; some share it."""
    first = None
    for x in probs:
        prob = x["prob"]
        if x["shares"]:
            yield first
            continue
        given = build.items_dict(prob["items"]), build.containers_dict(prob["containers"]) if prob["containers"] else None
        first = first or given
        yield given


def run_case(case, ctx):
    setup()
    probs = case["probs"]
    for x in probs:
        if x["shares"]:
            x["prob"].update({k: copy.deepcopy(probs[0]["prob"][k]) for k in ("items", "containers", "strip")})
    alone = [perform(x, given) for x, given in zip(probs, inputs(probs))]
    after = [p and c26.state(p) for _, p in alone]
    # some problems are made here and only used in their thread
    given = list(inputs(probs))
    made = [make(x, g) if x.get("moved") else None for x, g in zip(probs, given)]
    baton = Baton(len(probs), case["turns"])
    got = [None] * len(probs)
    failed = []

    def work(k, x):
        baton.wait(k)
        sys.settrace(baton.tracer(k))
        try:
            got[k] = perform(x, given[k], made[k])
        except BaseException as e:  # noqa
            failed.append((k, e))
        finally:
            sys.settrace(None)
            baton.next(k, done=True)

    CAPTURE.clear()
    threads = [threading.Thread(target=work, args=(k, x), daemon=True) for k, x in enumerate(probs)]
    for t in threads:
        t.start()
    for t in threads:
        t.join(90)
    check(not any(t.is_alive() for t in threads), "a thread did not end")
    for k, e in failed:
        raise e
    for k, x in enumerate(probs):
        for n, (a, b) in enumerate(zip(alone[k][0], got[k][0])):
            check(a == b, "problem {} in its own thread: {} observed {}, alone {}", k, x["ops"][n] if n < len(x["ops"]) else "instantiation", b, a)
        now = got[k][1] and c26.state(got[k][1])
        check(now == after[k], "problem {} after its thread has ended: {}, alone {}", k, now, after[k])
        check(len(alone[k][0]) == len(got[k][0]), "problem {} in its own thread: {} observations, alone {}", k, len(got[k][0]), len(alone[k][0]))
    solving_threads = sum(any(o.get("op") in ("solve", "ls", "hs") for o in x["ops"]) for x in probs)
    ctx.mark(solving_threads > 1 and baton.handed > 3)
    ctx.label("handovers " + ("0-3" if baton.handed < 4 else "4-40" if baton.handed <= 40 else "over 40"))
    ctx.label("several processes", any(o.get("workers", 1) > 1 for x in probs for o in x["ops"]))
    ctx.label("shared inputs", any(x["shares"] for x in probs))
