"""C12 The time limit and the throttle bound the search effort."""
import json
import os
from itertools import combinations

import build
import clock
import gen
import record
import solving
from core import check, load, sut

RULE = (
    "bin problems searched under a simulated clock on which every evaluation takes a generated time: local search, hypersearch and "
    "multi-process hypersearch with limits from 1 s up; evaluations started after the limit are counted, the best evaluated must be "
    "delivered, and a search not reaching the limit must equal the unlimited one; also 10-75 items with nothing to gain for the number of "
    "exchanges per node; non-trivial: the limit cut the search short, or more than 100 exchanges were counted"
)
ASSUMPTIONS = ["the modules' time sources are replaced by the simulated clock; time passes only during evaluations"]
CONFIG = {
    "quick": {"budget_s": 16, "max_examples": 10**6},
    "thorough": {"budget_s": 900, "max_examples": 10**8},
}
TOL = 1e-9


def setup(tier, index):
    load()
    clock.install()


def strategy(tier):
    return gen.cases(decode)


def enumerated(tier):
    for n in (10, 30, 70, 71, 72) + ((73, 75) if tier == "thorough" else ()):
        for throttle in (True, False):
            for gain in (False, True):
                if n < 72 or not gain or tier == "thorough":
                    yield {"kind": "exchanges", "n": n, "throttle": throttle, "gain": gain, "debug": (n == 72) is not throttle}
    for n in (72,) if tier != "thorough" else (71, 72, 75):
        for throttle in (True, False):
            for workers in (1, 2):
                yield {"kind": "nodes", "n": n, "throttle": throttle, "workers": workers}


def decode(s):
    kind = s.choice(("ls",) * 6 + ("hs",) * 6 + ("mp",))
    prob = gen.problem(
        s, mix=("micro", "tiny", "small", "small", "mid"), max_items=s.choice((3, 5, 7)), min_items=2, kinds=("hp",), strip=s.chance(10), max_containers=3,
        mode=s.choice(("mixed", "cut+", "cut+", "cut", "thin", "small", "big", None)),
    )
    limit = s.choice((1, 1, 2, 3, 10, 60, 61))
    about = s.choice((0.3, 1, 2, 3, 5, 8, 15, 30, 100, 1000))  # evaluations within the limit
    ticks = [s.choice((0, 0.5, 1, 1, 1, 1, 1, 1.5, 2, 7)) * limit / about for _ in range(s.between(1, 7))]
    op = solving.hs_op(s, max_strategies=5, workers=s.between(2, 3) if kind == "mp" else 1)
    return {"kind": kind, "prob": prob, "limit": limit, "default": s.chance(10), "ticks": ticks, "ops": [op], "before": s.chance(4), "debug": kind == "ls" and s.chance(8), "meanwhile": [s.between(1, 6), s.flag()] if s.chance(6) else None}


def search(p, case, op):
    with clock.running(monotonic=op["workers"] < 2):
        search_(p, case, op)


def search_(p, case, op):
    if case["kind"] == "ls":
        sut("local_search", p.local_search, throttle=op["throttle"], debug=case.get("debug", False))
        return
    solving.hypersearch(p, op)


def run_case(case, ctx):
    ctx.label("kind " + case["kind"])
    if case["kind"] == "exchanges":
        exchanges(case, ctx)
        return
    if case["kind"] == "nodes":
        nodes(case, ctx)
        return
    hp = load()
    prob, op = case["prob"], case["ops"][0]
    limit = 60 if case["default"] else case["limit"]
    scale = limit / case["limit"]
    ticks = [t * scale for t in case["ticks"]]
    settings = build.settings_of(prob)
    if not case["default"]:
        settings["max_time_in_seconds"] = limit
    # the unlimited search: no time passes
    free = build.make(prob, settings=settings, fresh=True)
    with record.Recorder(hp.HyperPack) as rec:
        search(free, case, dict(op, workers=1))
    total, free_value, free_sol = rec.seen, free.calculate_obj_value(), build.plain_solution(free)
    if not total:
        ctx.label("search not observable")
        return
    p = build.make(prob, settings=settings)
    if case["before"]:
        # an earlier search's clock must not count
        search(p, dict(case, kind="ls"), op)
        if prob["strip"]:
            p.reset_container_height()
            build.apply_state(p, prob)
        p.items = build.items_dict(prob["items"])
        clock.CLOCK.advance(1000 * limit)
    t0 = clock.CLOCK.now
    log = []
    path = os.path.join(os.environ.get("VERIF_SCRATCH") or "/tmp", f"c12-{os.getpid()}")
    me = os.getpid()
    meanwhile = case.get("meanwhile") if case["kind"] != "mp" else None
    if case["kind"] == "mp":
        open(path, "w").close()

    def start(entry, inst):
        entry["at"] = clock.CLOCK.now - t0
        entry["n"] = n = len(log)
        log.append(entry)
        if meanwhile and n == meanwhile[0]:
            # another problem is searched while this one is
            other = hp.HyperPack(containers={"c": {"W": 3, "L": 2}}, items={"a": {"w": 2, "l": 2}, "b": {"w": 2, "l": 1}}, settings={"max_time_in_seconds": 10**6})
            if meanwhile[1]:
                other.local_search()
            else:
                solving.hypersearch(other, {"strategies": [list(hp.HyperPack.DEFAULT_POTENTIAL_POINTS_STRATEGY)], "workers": 1, "sorting": None, "orientation": None, "throttle": True})
        clock.CLOCK.advance(ticks[n % len(ticks)])

    def end(entry, inst):
        if os.getpid() != me:
            with open(path, "a") as f:
                f.write(json.dumps([os.getpid(), entry["at"], list(entry["strategy"]), entry["sequence"], record.objective(entry["values"]), clock.CLOCK.now - t0]) + "\n")

    with record.Recorder(hp.HyperPack, on_start=start, on_end=end) as rec:
        search(p, case, op)
    value = p.calculate_obj_value()
    if case["kind"] == "mp":
        by = {}
        with open(path) as f:
            for line in f:
                x = json.loads(line)
                by.setdefault(x[0], []).append({"at": x[1], "strategy": tuple(x[2]), "sequence": x[3], "value": x[4], "end": x[5]})
        os.remove(path)
        for entries in by.values():
            bounded(entries, limit, "a worker")
        if by and not prob["strip"]:
            top = max(e["value"] for es in by.values() for e in es)
            check(value >= top - TOL, "result {} although a worker found {}", value, top)
        cut = any(es[-1]["end"] >= limit - TOL for es in by.values())
        if not cut and not prob["strip"]:
            check(abs(value - free_value) <= TOL, "no worker reached the limit, but the result is {} instead of {}", value, free_value)
        ctx.mark(cut)
        ctx.label("cut", cut)
        return
    for e in log:
        e["value"] = record.objective(e["values"])
    bounded(log, limit, case["kind"]) if case["kind"] == "hs" else bounded_local(log, limit)
    if not prob["strip"]:
        top = max(e["value"] for e in log)
        check(abs(value - top) <= TOL, "the best evaluated is {} but delivered is {}", top, value)
    elapsed = clock.CLOCK.now - t0
    if elapsed < limit:
        check(
            len(log) == total and build.plain_solution(p) == free_sol,
            "{} of {} s used, but {} of {} evaluations made", elapsed, limit, len(log), total,
        )
    cut = len(log) < total
    ctx.mark(cut and len(log) > 1)
    ctx.label("cut", cut)
    ctx.label("another search meanwhile", meanwhile is not None and len(log) > meanwhile[0])
    ctx.label("cut later than the first strategy", cut and case["kind"] == "hs" and len({e["strategy"] for e in log}) > 2)


def bounded_local(log, limit):
    """The start solution and the first candidate are always evaluated, all others start within the limit."""
    for n, e in enumerate(log):
        check(n < 2 or e["at"] <= limit + TOL, "local search: candidate {} was started {} s after the start, limit {}", n, e["at"], limit)


def bounded(log, limit, what):
    late = [n for n, e in enumerate(log) if e["at"] > limit + TOL]
    check(len(late) <= 2, "{}: {} evaluations started after the limit of {} s: at {}", what, len(late), limit, [log[n]["at"] for n in late])
    if not late:
        return
    last = late[0] - 1  # in progress when the limit passed
    is_start = log[last]["sequence"] is None
    allowed = 2 if last == 0 else 1 if is_start else 0
    check(
        len(late) <= allowed,
        "{}: the limit of {} s passed during {} {}, but {} more evaluations were started, at {}",
        what, limit, "start solution" if is_start else "candidate", last, len(late), [log[n]["at"] for n in late],
    )


def nodes(case, ctx):
    """Exchanges per node of a hypersearch in which nothing can be gained, by one process or more."""
    hp = load()
    n, throttle = case["n"], case["throttle"]
    prob = {"kind": "hp", "containers": [["c", 4, 1]], "strip": None, "items": [[f"i{k}", 9, 9] for k in range(n)], "rotation": False, "pp": None}
    p = build.make(prob, max_time_in_seconds=10**6)
    path = os.path.join(os.environ.get("VERIF_SCRATCH") or "/tmp", f"c12-nodes-{os.getpid()}")
    out = open(path, "wb", buffering=0)
    numbers = {f"i{k}": k for k in range(n)}

    def start(entry, inst):
        if entry["sequence"] is not None:
            os.write(out.fileno(), os.getpid().to_bytes(8, "big") + bytes(len(inst.potential_points_strategy) for _ in range(1)) + bytes(numbers[i] for i in entry["sequence"]))

    strategies = [list(hp.HyperPack.DEFAULT_POTENTIAL_POINTS_STRATEGY), ["A", "B"]]
    op = {"op": "hs", "workers": case["workers"], "strategies": strategies, "orientation": None, "sorting": None, "throttle": throttle}
    os.set_inheritable(out.fileno(), True)
    with record.Recorder(hp.HyperPack, on_start=start, keep=False) as rec, clock.running(monotonic=case["workers"] < 2):
        solving.hypersearch(p, op)
    out.close()
    with open(path, "rb") as f:
        data = f.read()
    os.remove(path)
    by = {}
    for k in range(0, len(data), n + 9):
        if len(data[k : k + n + 9]) == n + 9:
            by.setdefault(data[k : k + 9], set()).add(data[k + 9 : k + n + 9])
    if not by:
        ctx.label("search not observable")
        return
    allowed = n * (n - 1) // 2
    for found in by.values():
        # the start solution may be built of the whole sequence as well
        found.discard(bytes(range(n)))
        if throttle:
            check(len(found) <= 2500, "throttled, but {} exchanges in a node of {} items with {} workers", len(found), n, case["workers"])
        else:
            check(len(found) == allowed, "not throttled, but {} of {} exchanges of {} items tried with {} workers", len(found), allowed, n, case["workers"])
    check(len(by) >= 1 and rec is not None, "nothing recorded")
    ctx.mark(allowed > 100)


def exchanges(case, ctx):
    """Nothing to gain (or exactly one gain): exchanges evaluated per node."""
    hp = load()
    n, throttle = case["n"], case["throttle"]
    items = [[f"i{k}", 9, 9] for k in range(n)]
    if case["gain"]:
        items[0] = ["a", 2, 1]
        items[n - 1] = ["b", 3, 1]
    prob = {"kind": "hp", "containers": [["c", 4, 1]], "strip": None, "items": items, "rotation": False, "pp": None}
    p = build.make(prob, max_time_in_seconds=10**6)
    seqs = []

    def start(entry, inst):
        seqs.append(tuple(entry["sequence"]) if entry["sequence"] is not None else None)

    with record.Recorder(hp.HyperPack, on_start=start, keep=False) as rec, clock.running():
        sut("local_search", p.local_search, throttle=throttle, debug=case.get("debug", False))
    if not rec.seen:
        return
    allowed = n * (n - 1) // 2
    bound = min(allowed, 2500) if throttle else allowed
    names = [i[0] for i in items]
    base = tuple(names)
    cand = seqs[1:]
    if case["gain"]:
        # first node: up to the exchange that brings b before a
        k = next((k for k, x in enumerate(cand) if x.index("b") < x.index("a")), None)
        check(k is not None, "the only improving exchange was not evaluated among {}", len(cand))
        base, cand = cand[k], cand[k + 1 :]
        check(k + 1 <= bound, "{} exchanges in the first node, at most {} allowed", k + 1, bound)
    if throttle and allowed > 2500:
        check(len(cand) <= 2500, "throttled, but {} exchanges in a node of {} items", len(cand), n)
        ctx.label("throttled")
    else:
        want = set()
        for a, b in combinations(range(n), 2):
            t = list(base)
            t[a], t[b] = t[b], t[a]
            want.add(tuple(t))
        missing = want - set(cand)
        check(not missing, "{} items, throttle {}: {} of {} exchanges were not evaluated", n, throttle, len(missing), len(want))
    ctx.mark(len(cand) > 100)
