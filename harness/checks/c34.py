"""C34 A multi-process hypersearch leaves no process, thread or file handle behind."""
import gc
import multiprocessing
import multiprocessing.util
import os
import signal
import threading
import time

import build
import gen
import solving
from core import check, load, sut

RULE = (
    "3-6 hypersearches on one or two problems, with 1-5 workers, workers that are slow (up to 0.3 s), take long to end after delivering (up to 11 s), raise, exit, are killed, or find "
    "a perfect packing; after each, the child processes (also ended ones nobody waited for), threads and, over all but the first two, "
    "open files of this process are counted; non-trivial: at least two multi-process hypersearches, and a worker slow or failed"
)
ASSUMPTIONS = ["Linux, forked workers; faults fire while a candidate is being solved"]
LEVEL = "fault_enumeration"
HANG_S = 100
CONFIG = {
    "quick": {"budget_s": 14, "max_examples": 10**6},
    "thorough": {"budget_s": 300, "max_examples": 10**8},
}
KINDS = ("slow", "slow", "late", "late", "RuntimeError", "SystemExit", "exit0", "exit1", "kill")
RAISES = {"RuntimeError": RuntimeError, "SystemExit": SystemExit}


def strategy(tier):
    return gen.cases(decode)


def decode(s):
    probs = [gen.rich_problem(s, s.choice((3, 5, 6)), max_containers=2, strip=s.chance(6)) for _ in range(s.between(1, 2))]
    ops = []
    for _ in range(s.between(3, 6)):
        op = solving.hs_op(s, workers=s.choice((1, 2, 2, 3, 3, 4, 5)), max_strategies=6, style=gen.search_style(s))
        op["problem"] = s.below(len(probs))
        op["faults"] = {}
        rate = s.choice((2, 3, 6))
        for k in range(len(op["strategies"])):
            if s.chance(rate):
                kind = s.choice(KINDS)
                delay = s.choice((1, 3, 10, 30))
                if kind == "late":
                    delay = s.choice((10, 30, 70, 70)) if not s.chance(40) else 1100
                op["faults"][str(k)] = [kind, s.choice((1, 1, 2, 5)), delay]
        op["force"] = s.choice(("all", 0, 1)) if s.chance(10) else None
        ops.append(op)
    return {"probs": probs, "ops": ops}


class Armed(tuple):
    """A strategy that does something at a given iteration over it, in workers only."""

    def __new__(cls, values, fault=None):
        self = super().__new__(cls, values)
        self.fault, self.parent, self.count = fault, os.getpid(), 0
        return self

    def __iter__(self):
        if self.fault and os.getpid() != self.parent:
            self.count += 1
            kind, at, delay = self.fault
            if self.count == at:
                if kind == "slow":
                    time.sleep(delay / 100)
                elif kind == "late":
                    # delivers as usual but takes its time to end
                    multiprocessing.util.Finalize(None, time.sleep, (delay / 100,), exitpriority=1)
                elif kind == "kill":
                    os.kill(os.getpid(), signal.SIGKILL)
                elif kind in RAISES:
                    raise RAISES[kind]("injected")
                else:
                    os._exit(int(kind[4:]))
        return super().__iter__()


def children():
    """Child processes of this one, also ended ones that were not waited for."""
    me, found = str(os.getpid()), []
    for pid in filter(str.isdigit, os.listdir("/proc")):
        try:
            with open(f"/proc/{pid}/stat") as f:
                fields = f.read().rsplit(")", 1)[1].split()
        except OSError:
            continue
        if fields[1] == me:
            found.append((int(pid), fields[0]))
    return found


def files():
    gc.collect()
    return len(os.listdir("/proc/self/fd"))


def run_case(case, ctx):
    hp = load()
    multiprocessing.active_children()
    base, threads = {pid for pid, _ in children()}, threading.active_count()
    problems = [build.make(x) for x in case["probs"]]
    handles = None
    slow = several = 0
    for k, op in enumerate(case["ops"]):
        p = problems[op["problem"]]
        lst = [Armed(x, op["faults"].get(str(j))) for j, x in enumerate(op["strategies"])]
        p.get_strategies = lambda *a, **k: list(lst)
        solving.set_workers(p, op["workers"])
        failed = False
        try:
            # not through sut: all the workers may have failed
            p.hypersearch(
                orientation=op["orientation"], sorting_by=tuple(op["sorting"]) if op["sorting"] else None, throttle=op["throttle"],
                _force_raise_error_index=op["force"],
            )
        except hp.exceptions.MultiProcessError:
            failed = True
            ctx.label("all failed")
        left = [x for x in children() if x[0] not in base]
        check(not left, "hypersearch {} with {} workers {} but left the processes {}", k, op["workers"], "raised" if failed else "returned", left)
        now = threading.active_count()
        check(now <= threads, "hypersearch {} left {} threads", k, now - threads)
        if op["workers"] > 1:
            several += 1
            slow += bool(op["faults"] or op["force"] is not None)
        if k == 1:
            handles = files()
    later = sum(min(o["workers"], len(o["strategies"])) for o in case["ops"][2:] if o["workers"] > 1)
    more = files() - handles
    check(more <= 3 or more < later, "{} more open files after hypersearches with {} workers in all", more, later)
    ctx.mark(several >= 2 and slow)
    ctx.label("hypersearches with several workers: %d" % min(several, 4))
    for op in case["ops"]:
        for f in op["faults"].values():
            ctx.label("fault " + f[0])


_ = sut
