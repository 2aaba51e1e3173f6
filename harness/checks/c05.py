"""C05 Results do not depend on the interpreter process."""
import json
import os
import subprocess
import sys
import time

import build
import gen
import solving
from core import check, sut

RULE = (
    "batches of 1-4 jobs (solve, local search, hypersearch over given, pool and all 720 exhaustive strategies, hypersearch with 2-5 "
    "workers) run in three interpreter processes with different string hash seeds, each in its own order and with its own past (one is "
    "restarted regularly) and its own delays of the workers; results must be identical; non-trivial: some job packs at least two items"
)
ASSUMPTIONS = [
    "60 s default limit never reached by the tiny searches",
    "when a multi-process search finds a perfect packing, the others stop at once, so only its value is compared",
]
CONFIG = {
    "quick": {"budget_s": 14, "max_examples": 10**6, "shards": 6},
    "thorough": {"budget_s": 600, "max_examples": 10**8, "shards": 6},
}
HERE = os.path.dirname(os.path.abspath(__file__))
SERVERS = []
STATE = {"n": 0}


class Server:
    def __init__(self, hashseed, turn):
        self.hashseed, self.turn = hashseed, turn
        self.start()

    def start(self):
        env = dict(os.environ, PYTHONHASHSEED=str(self.hashseed), C05_SERVER=str(self.turn))
        self.p = subprocess.Popen(
            [sys.executable, os.path.join(HERE, "..", "c05_server.py")],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
            env=env,
            text=True,
        )

    def ask(self, jobs):
        self.p.stdin.write(json.dumps(jobs) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("C05 server ended")
        return json.loads(line)

    def stop(self):
        self.p.kill()
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()


def setup(tier, index):
    for k in range(3):
        SERVERS.append(Server(index * 3 + k + 1 if k else 0, k))


def teardown():
    for s in SERVERS:
        s.stop()
    SERVERS.clear()


def strategy(tier):
    return gen.cases(decode)


def decode(s):
    jobs = []
    for _ in range(s.between(1, 4)):
        kind = s.choice(("solve", "solve", "ls", "hs", "hs", "mp", "mp", "pool", "strategies") + ("exhaustive",) * s.below(2))
        if kind in ("exhaustive", "strategies"):
            prob = gen.problem(s, mix=("micro", "tiny", "small"), max_items=3, kinds=("hp",), max_containers=2)
            job = {"prob": prob, "ops": [{"op": kind}]}
        elif kind == "pool":
            prob = gen.problem(s, mix=("tiny", "small"), max_items=7, kinds=("hp",), max_containers=3)
            job = {"prob": prob, "ops": [{"op": "pool"}]}
        elif kind == "mp":
            prob = gen.rich_problem(s, s.choice((3, 5, 6)), max_containers=3, strip=s.chance(4))
            op = solving.hs_op(s, workers=s.between(2, 5), max_strategies=6, style=gen.search_style(s))
            op["delays"] = [s.choice((0, 0, 3, 10, 30, 80)) for _ in op["strategies"]]
            job = {"prob": prob, "ops": [op]}
        else:
            job = solving.solved(s, ops=(kind,), mp_one_in=10**6, thousands=0)
        jobs.append(job)
    return {"jobs": jobs, "restart": s.choice((0, 0, 0, 0, 1, 2)) if s.chance(4) else 0}


def shrink(case):
    for k in range(len(case["jobs"])):
        if len(case["jobs"]) > 1:
            yield {**case, "jobs": [j for i, j in enumerate(case["jobs"]) if i != k]}
    import shrink as sh

    for k, job in enumerate(case["jobs"]):
        for c in sh.candidates(job):
            yield {**case, "jobs": [c if i == k else j for i, j in enumerate(case["jobs"])]}


class Delayed(tuple):
    """A strategy whose first use in a worker takes longer, by an amount that differs between the servers."""

    def __new__(cls, values, delay):
        self = super().__new__(cls, values)
        self.delay, self.parent = delay, os.getpid()
        return self

    def __iter__(self):
        if self.delay and os.getpid() != self.parent:
            delay, self.delay = self.delay, 0
            time.sleep(delay / 1000)
        return super().__iter__()


def perfect(p):
    """Every container is full."""
    return not p._strip_pack and all(
        sum(v[2] * v[3] for v in p.solution[c].values()) == p.containers[c]["W"] * p.containers[c]["L"] for c in p.solution
    )


def do_job(job):
    """Runs in every process; returns plain data."""
    prob = job["prob"]
    p = build.make(prob)
    for op in job["ops"]:
        if op["op"] == "strategies":
            out = [list(map(list, p.get_strategies())), list(map(list, p.get_strategies(_exhaustive=False)))]
            return {"strategies": out}
        if op["op"] == "exhaustive":
            p.hypersearch()
        elif op["op"] == "pool":
            p.hypersearch(_exhaustive=False)
        elif "delays" in op:
            turn = int(os.environ.get("C05_SERVER", 0))
            delays = op["delays"][turn:] + op["delays"][:turn]
            lst = [Delayed(x, d) for x, d in zip(op["strategies"], delays)]
            p.get_strategies = lambda *a, **k: list(lst)
            solving.set_workers(p, op["workers"])
            p.hypersearch(orientation=op["orientation"], sorting_by=tuple(op["sorting"]) if op["sorting"] else None, throttle=op["throttle"])
            if perfect(p):
                return {"value": round(p.calculate_obj_value(), 9), "items": build.plain_items(p)}
        else:
            solving.run_op(p, prob, op)
    best = getattr(p, "best_strategy", None)
    return {
        "solution": build.plain_solution(p),
        "values": dict(p.obj_val_per_container),
        "items": build.plain_items(p),
        "best": list(best) if best is not None else None,
        "log": p.log_solution(),
    }


def run_case(case, ctx):
    jobs = case["jobs"]
    n = len(jobs)
    orders = [list(range(n)), list(range(n))[::-1], list(range(n))[1:] + [0]]
    STATE["n"] += 1
    if case["restart"]:
        SERVERS[case["restart"]].stop()
        SERVERS[case["restart"]].start()
    answers = []
    for server, order in zip(SERVERS, orders):
        out = server.ask([jobs[k] for k in order])
        answers.append({k: r for k, r in zip(order, out)})
    for k in range(n):
        for server, a in zip(SERVERS[1:], answers[1:]):
            x, y = answers[0][k], a[k]
            for r in (x, y):
                if "error" in r:
                    check(False, "job {} raised {}", jobs[k]["ops"][-1]["op"], r["error"])
            if x != y:
                key = next(key for key in list(x) + list(y) if x.get(key) != y.get(key))
                check(
                    False, "hash seeds {} and {}: {} differs after {}: {} / {}",
                    SERVERS[0].hashseed, server.hashseed, key, jobs[k]["ops"][-1]["op"], str(x.get(key))[:300], str(y.get(key))[:300],
                )
        r = answers[0][k]
        ctx.mark("solution" in r and sum(len(v) for v in r["solution"].values()) >= 2)
        op = jobs[k]["ops"][-1]
        ctx.label("job " + ("mp" if "delays" in op else op["op"]))
        ctx.label("perfect packing of several workers", "value" in r)
    ctx.label("restarted process", bool(case["restart"]))
