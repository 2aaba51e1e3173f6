"""C11 Failed workers never corrupt, lose or block a multi-process hypersearch."""
import contextlib
import multiprocessing
import multiprocessing.connection
import multiprocessing.synchronize
import os
import signal

import build
import gen
import searching
import solving
from core import CAPTURE, check, load

RULE = (
    "bin problems (strips now and then), 2-8 distinct strategies, 2-5 workers; a fault (exception of several kinds, exit with any status, "
    "SIGKILL) is armed in any subset of the strategies or in the start solution of any subset of the workers and fires at a given "
    "step of the construction, while the worker holds the lock of a shared value, or while it hands over its result, so workers fail before, during or after finding something good; the result is compared with fresh local "
    "searches of the strategies of the workers that did not fail; workers are forked, sometimes spawned; non-trivial: at least one worker failed and at least one did not, or "
    "all failed; a case still running after 60 s is a deadlock"
)
ASSUMPTIONS = [
    "Linux; faults fire while a candidate is being solved, while a lock of a shared value is held, or while the result is handed over",
]
LEVEL = "fault_enumeration"
HANG_S = 60
CONFIG = {
    "quick": {"budget_s": 18, "max_examples": 10**6},
    "thorough": {"budget_s": 900, "max_examples": 10**8},
}
TOL = searching.TOL
KINDS = ("RuntimeError", "ValueError", "MemoryError", "SystemExit", "KeyboardInterrupt", "exit0", "exit1", "exit3", "kill")


def strategy(tier):
    return gen.cases(decode)


def decode(s):
    prob = gen.rich_problem(s, s.choice((4, 6, 7)), max_containers=2, strip=s.chance(12))
    if not prob["pp"]:
        prob["pp"] = s.perm(gen.CLASSES) if s.flag() else None
    op = solving.hs_op(s, workers=s.between(2, 5), max_strategies=8, style=gen.search_style(s))
    lst = [list(x) for x in dict.fromkeys(tuple(x) for x in op["strategies"])]
    while len(lst) < 2:
        x = s.perm(gen.CLASSES)
        if x not in lst:
            lst.append(x)
    op["strategies"] = lst
    one = s.choice(KINDS)
    faults = {}
    if s.below(10):
        share = s.choice((2, 3, 3))
        for k in range(len(lst)):
            if s.chance(share):
                faults[str(k)] = [one if s.flag() else s.choice(KINDS), s.choice((1, 1, 2, 3, 5, 9, 20, 60, 200))]
    start = {}
    mode = s.below(12)
    if mode in (0, 1):
        for k in range(op["workers"]):
            if s.flag() or mode == 1:
                start[str(k)] = [one if s.flag() else s.choice(KINDS), s.choice((1, 1, 2, 3))]
    force = s.choice(("all", 0, 1, 2, 3)) if s.chance(10) else None
    if s.chance(10):
        # workers that die at a bad moment between their searches, with small and large results
        late = {str(k): [s.choice(("locked", "locked", "handing over")), s.choice((1, 1, 2, 3, 5))] for k in range(op["workers"]) if s.below(3)}
        if s.flag():
            for k, item in enumerate(prob["items"]):
                item[0] = f"{k}" + "long" * s.choice((1, 1000, 1000, 5000))
        return {"prob": prob, "ops": [op], "faults": {} if s.below(3) else faults, "start": {}, "force": None, "method": "fork", "late": late}
    return {"prob": prob, "ops": [op], "faults": faults, "start": start, "force": force, "method": solving.start_method(s, 20)}


class FaultTuple(tuple):
    """A strategy that notes who iterates it and fails at a given iteration, in workers only."""

    def __new__(cls, values, index=None, fault=None, path=None, by_worker=None):
        self = super().__new__(cls, values)
        self.index, self.fault, self.path, self.by_worker = index, fault, path, by_worker
        self.parent, self.seen, self.count = os.getpid(), set(), 0
        return self

    def note(self, what):
        fd = os.open(self.path, os.O_WRONLY | os.O_APPEND)
        try:
            os.write(fd, f"{os.getpid()} {what}\n".encode())
        finally:
            os.close(fd)

    def __iter__(self):
        if os.getpid() != self.parent:
            if os.getpid() not in self.seen:
                self.seen = {os.getpid()}
                self.count = 0
                self.note(f"S {self.index}")
            self.count += 1
            fault = self.fault
            if self.by_worker:
                name = multiprocessing.current_process().name
                fault = self.by_worker.get(name.rsplit("_", 1)[-1])
            if fault and self.count == fault[1]:
                self.note(f"F {fault[0]}")
                self.fire(fault[0])
        return super().__iter__()

    @staticmethod
    def fire(kind):
        if kind.startswith("exit"):
            os._exit(int(kind[4:]))
        if kind == "kill":
            os.kill(os.getpid(), signal.SIGKILL)
        raise {
            "RuntimeError": RuntimeError, "ValueError": ValueError, "MemoryError": MemoryError,
            "SystemExit": SystemExit, "KeyboardInterrupt": KeyboardInterrupt,
        }[kind]("injected")


@contextlib.contextmanager
def dying(late, note):
    """Workers killed while they hold a lock that processes share, or after a part of their result was written."""
    parent, count = os.getpid(), {}
    lock, conn = multiprocessing.synchronize.SemLock, multiprocessing.connection.Connection
    enter, send = lock.__enter__, conn._send

    def due(kind):
        if os.getpid() == parent:
            return False
        fault = late.get(multiprocessing.current_process().name.rsplit("_", 1)[-1])
        if not fault or fault[0] != kind:
            return False
        count[kind] = count.get(kind, 0) + 1
        return count[kind] == fault[1]

    def entering(self):
        out = enter(self)
        if due("locked"):
            note("F locked")
            os.kill(os.getpid(), signal.SIGKILL)
        return out

    def sending(self, buf, *a, **k):
        if due("handing over"):
            note("F handing-over")
            if len(buf) > 65536:
                # more than a pipe holds: written in parts
                send(self, bytes(buf[:65536]), *a, **k)
            os.kill(os.getpid(), signal.SIGKILL)
        return send(self, buf, *a, **k)

    if late:
        lock.__enter__, conn._send = entering, sending
    try:
        yield
    finally:
        lock.__enter__, conn._send = enter, send


def run_case(case, ctx):
    hp = load()
    prob, op = case["prob"], case["ops"][0]
    strategies = [tuple(x) for x in op["strategies"]]
    exp = searching.Expectation(prob, op, strategies)
    p = build.make(prob)
    configured = list(p.potential_points_strategy)
    exp.strategy_of_problem = []
    path = os.path.join(os.environ.get("VERIF_SCRATCH") or "/tmp", f"c11-{os.getpid()}")
    open(path, "w").close()
    p.potential_points_strategy = FaultTuple(configured, "start", None, path, case["start"])
    noting = p.potential_points_strategy
    if not isinstance(noting, FaultTuple):
        noting = FaultTuple((), None, None, path)
    lst = [FaultTuple(x, k, case["faults"].get(str(k)), path) for k, x in enumerate(strategies)]
    p.get_strategies = lambda *a, **k: list(lst)
    solving.set_workers(p, op["workers"])
    settings = dict(p.settings)
    conts = build.plain_containers(p)
    CAPTURE.clear()
    try:
        with solving.started_by(case.get("method")), dying(case.get("late"), noting.note):
            p.hypersearch(
                orientation=op["orientation"], sorting_by=tuple(op["sorting"]) if op["sorting"] else None, throttle=op["throttle"],
                _force_raise_error_index=case["force"],
            )
        error = None
    except Exception as e:  # noqa
        error = e
    with open(path) as f:
        notes = [x.split() for x in f.read().splitlines()]
    os.remove(path)
    failed = {n[0] for n in notes if n[1] == "F"}
    tried = {}
    for n in notes:
        if n[1] == "S":
            tried.setdefault(n[0], []).append(n[2])
    good = {pid: [int(x) for x in ks if x != "start"] for pid, ks in tried.items() if pid not in failed}
    check(p.settings == settings and build.plain_containers(p) == conts, "settings or containers changed")
    check(build.plain_items(p) == exp.items, "items became {} instead of {}", build.plain_items(p), exp.items)
    check(list(p.potential_points_strategy) == configured, "the configured strategy changed")
    ctx.label("faults fired: %d" % min(3, len(failed)))
    ctx.label("started by " + case.get("method", "fork"))
    for n in notes:
        if n[1] == "F":
            ctx.label("fault " + n[2])
    if not notes and case["force"] is None and error is None:
        # the search works on copies: no fault was armed
        ctx.label("faults not observable")
        check(prob["strip"] or p.calculate_obj_value() >= exp.best - TOL, "no worker failed, but the result is {} instead of {}", p.calculate_obj_value(), exp.best)
        return
    if not good:
        check(type(error) is hp.exceptions.MultiProcessError, "all workers failed ({}), but hypersearch gave {!r}", notes, error)
        ctx.mark(bool(failed) or case["force"] == "all")
        ctx.label("all failed")
        return
    if failed or case["force"] is not None:
        ctx.mark()
        ctx.label("some failed")
    if case["force"] is None:
        logged = any("Some of the processes raised an exception" in m for m in CAPTURE.of("ERROR"))
        check(logged == bool(failed), "{} workers failed, but the failure of some is {}logged: {}", len(failed), "" if logged else "not ", CAPTURE.of("ERROR"))
    check(error is None, "workers {} did not fail, but hypersearch raised {}: {}", sorted(good), type(error).__name__, error)
    best = p.best_strategy
    usable = {strategies[k] for ks in good.values() for k in ks}
    if best is not None and not (list(best) == configured and tuple(best) not in strategies):
        check(tuple(best) in usable, "the best strategy {} belongs to no worker that survived: {}", list(best), notes)
    if prob["strip"]:
        check(p.solution and p.calculate_obj_value() >= exp.plain[0] - TOL, "strip: {} below the plain solution {}", p.calculate_obj_value(), exp.plain[0])
        return
    exp.strategy_of_problem = configured
    value = searching.belongs(p, exp, strategies, none_ok=True)
    least = max([exp.plain[0]] + [exp.by[t][0] for t in usable])
    check(value >= least - TOL, "result {} but the workers that did not fail had {}; {}", value, least, notes)
    lost = max([0] + [exp.by[strategies[int(k)]][0] for pid in failed for k in tried.get(pid, []) if k != "start"])
    ctx.label("a failed worker had something better", lost > least + TOL)
    ctx.label("survivors improved", least > exp.plain[0] + TOL)
