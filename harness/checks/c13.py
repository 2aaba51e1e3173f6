"""C13 A search stops once every container is completely full."""
import json
import os
import time

import build
import gen
import record
import searching
import solving
from core import Skip, check, load, sut

RULE = (
    "containers cut into items so that perfect packings exist, in random order, and near-perfect ones (an item one unit smaller, one "
    "missing, one container too many); local search, hypersearch and workers are watched: a second worker held back until the first has found one and ended; nothing may be evaluated after the first evaluation "
    "with all containers full, and without one every strategy and every exchange of the last node must have been tried; non-trivial: a "
    "perfect packing was found, or the best has at least 90% without being perfect"
)
CONFIG = {
    "quick": {"budget_s": 16, "max_examples": 10**6},
    "thorough": {"budget_s": 600, "max_examples": 10**8},
}
TOL = 1e-9


def strategy(tier):
    return gen.cases(decode)


def decode(s):
    kind = s.choice(("ls",) * 8 + ("hs",) * 6 + ("mp",))
    if s.chance(60):
        return decode_informed(s)
    n = s.choice((1, 1, 1, 2, 2, 3, 4))
    side = s.choice((3, 5, 8, 12, 30))
    conts = [[f"c{k}", s.between(1, side), s.between(1, side)] for k in range(n)]
    budget = s.between(2, 7 if kind == "ls" else 6)
    if s.chance(20):
        # so large that a single unit of area hardly counts
        n = s.choice((1, 1, 2))
        sizes = [s.choice(((s.between(10000, 400000), 1), (s.between(10000, 150000), s.between(1, 6)), (s.between(100, 400), s.between(100, 400)), (1, s.between(10000, 30000)))) for _ in range(n)]
        conts = [[f"c{k}", W, L] for k, (W, L) in enumerate(sizes)]
        budget = s.between(2, 4)
    parts = [1] * n
    for _ in range(max(0, budget - n)):
        parts[s.below(n)] += 1
    dims = []
    for (c, W, L), k in zip(conts, parts):
        dims += gen._cut(s, W, L, k)
    variant = s.choice(("perfect",) * 3 + ("smaller", "smaller", "missing", "extra container", "surplus", "surplus"))
    if variant == "smaller":
        k = s.below(len(dims))
        w, l = dims[k]
        dims[k] = (w, l - 1) if l > 1 else (w - 1, l) if w > 1 else (1, 1)
    elif variant == "missing" and len(dims) > 1:
        dims.pop(s.below(len(dims)))
    elif variant == "extra container":
        conts.insert(s.below(len(conts) + 1), ["x", s.between(1, 3), s.between(1, 3)])
    elif variant == "surplus":
        dims += [(s.between(1, side), s.between(1, side)) for _ in range(s.between(1, 2))]
    dims = s.perm(dims) if s.below(4) else dims
    prob = {
        "kind": "hp", "containers": conts, "strip": None, "rotation": s.choice((None, False, True)), "pp": gen.pp_strategy(s) if s.chance(3) else None,
        "items": [[f"i{k}", w, l] for k, (w, l) in enumerate(dims)],
    }
    if s.chance(50):
        prob = gen.needle(s)
        if s.flag() and len(prob["containers"]) == 1:
            # one unit too many
            prob["containers"][0][1 if prob["containers"][0][1] > 1 else 2] += 1
    if s.chance(7):
        prob["past"] = gen.past(s)
    return {"kind": kind, "prob": prob, "ops": [solving.hs_op(s, max_strategies=5, workers=s.between(2, 3) if kind == "mp" else 1)], "before": s.chance(5)}


def decode_informed(s):
    """Two workers: the first finds a perfect packing while the second is still busy with its first strategy."""
    W, L = s.between(2, 12), s.between(2, 12)
    dims = s.perm(gen._cut(s, W, L, s.between(2, 5)))
    prob = {
        "kind": "hp", "containers": [["c", W, L]], "strip": None, "rotation": s.choice((None, False)), "pp": [],
        "items": [[f"i{k}", w, l] for k, (w, l) in enumerate(dims)],
    }
    if s.chance(7):
        prob["past"] = gen.past(s)
    mine = [s.perm(gen.CLASSES)]
    others = [[]] + [s.perm(gen.CLASSES) for _ in range(s.between(1, 2))]
    while len(mine) < len(others):
        mine.append(s.perm(gen.CLASSES))
    swap = s.flag()
    op = {"op": "hs", "workers": 2, "strategies": others + mine if swap else mine + others, "orientation": None, "sorting": None, "throttle": True}
    return {"kind": "informed", "prob": prob, "ops": [op], "finder": mine[0], "others": others}


def gone(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            return f.read().rsplit(")", 1)[1].split()[0] in "ZX"
    except OSError:
        return True


def run_informed(case, ctx):
    hp = load()
    prob, op = case["prob"], case["ops"][0]
    finder, others = tuple(case["finder"]), [tuple(x) for x in case["others"]]
    if len(prob["items"]) < 2 or searching.local(prob, prob["items"], finder, True)[0] < 1 - TOL or finder in others:
        raise Skip("the first strategy does not find a perfect packing")
    p = build.make(prob)
    path = os.path.join(os.environ.get("VERIF_SCRATCH") or "/tmp", f"c13-{os.getpid()}")
    open(path, "w").close()
    me = os.getpid()
    state = {"waited": False}

    def note(*what):
        with open(path, "a") as f:
            f.write(json.dumps(what) + "\n")

    def notes():
        with open(path) as f:
            return [json.loads(x) for x in f.read().splitlines()]

    def start(entry, inst):
        if os.getpid() == me:
            return
        note(os.getpid(), "start", list(entry["strategy"]))
        if entry["strategy"] == () and entry["sequence"] is not None and not state["waited"]:
            # in the second worker's first local search: until the first worker is done
            state["waited"] = True
            end_by = time.monotonic() + 20
            while time.monotonic() < end_by:
                done = [n[0] for n in notes() if n[1] == "full"]
                if done and gone(done[0]):
                    note(os.getpid(), "informed")
                    return
                time.sleep(0.003)

    def end(entry, inst):
        if os.getpid() != me and full(entry["solution"], prob["containers"]):
            note(os.getpid(), "full")

    with record.Recorder(hp.HyperPack, on_start=start, on_end=end):
        solving.run_op(p, prob, op)
    log = notes()
    os.remove(path)
    informed = [k for k, n in enumerate(log) if n[1] == "informed"]
    if not informed:
        ctx.label("workers not synchronised")
        return
    pid = log[informed[0]][0]
    late = {tuple(n[2]) for n in log[informed[0] :] if n[0] == pid and n[1] == "start"} - {()}
    check(not late, "a worker had found a perfect packing, but another worker started strategies {} afterwards", sorted(late))
    check(full(build.plain_solution(p), prob["containers"]), "a worker found a perfect packing, but the result is {}", build.plain_solution(p))
    ctx.mark()
    ctx.label("worker informed of a perfect packing")


def full(sol, conts):
    """Every container completely covered, from the placements."""
    return all(sum(v[2] * v[3] for v in sol.get(c, {}).values()) == W * L for c, W, L in conts)


def run_case(case, ctx):
    hp = load()
    if case["kind"] == "informed":
        run_informed(case, ctx)
        return
    prob, op, kind = case["prob"], case["ops"][0], case["kind"]
    conts = prob["containers"]
    p = build.make(prob)
    if case["before"] and len(conts) > 1:
        # the containers in force count, not the ones of before
        p.containers = build.containers_dict(conts[:1])
        p.solve()
        for c, W, L in conts[1:]:
            p.containers[c] = {"W": W, "L": L}
        ctx.label("containers changed before")
    path = os.path.join(os.environ.get("VERIF_SCRATCH") or "/tmp", f"c13-{os.getpid()}")
    me = os.getpid()
    if kind == "mp":
        open(path, "w").close()

    def end(entry, inst):
        entry["full"] = full(entry["solution"], conts)
        if os.getpid() != me:
            with open(path, "a") as f:
                f.write(json.dumps([os.getpid(), entry["full"], list(entry["strategy"])]) + "\n")

    with record.Recorder(hp.HyperPack, on_end=end) as rec:
        if kind == "ls":
            sut("local_search", p.local_search, throttle=op["throttle"], debug=op.get("debug", False))
        else:
            solving.run_op(p, prob, op)
    log = rec.entries
    if kind == "mp":
        by = {}
        with open(path) as f:
            for line in f:
                pid, is_full, strat = json.loads(line)
                by.setdefault(pid, []).append((is_full, tuple(strat)))
        os.remove(path)
        any_full = False
        for entries in by.values():
            flags = [e[0] for e in entries]
            if True in flags:
                any_full = True
                late = len(flags) - 1 - flags.index(True)
                check(late == 0, "a worker evaluated {} more after a perfect packing", late)
        if by and any_full:
            check(full(build.plain_solution(p), conts), "a worker found a perfect packing, but the result is {}", build.plain_solution(p))
        if by and not any_full:
            tried = {e[1] for es in by.values() for e in es}
            gone = [x for x in op["strategies"] if tuple(x) not in tried]
            check(not gone, "no perfect packing, but strategies {} were not tried", gone)
        finish(ctx, p, any_full)
        return
    if not log:
        ctx.label("search not observable")
        return
    flags = [e["full"] for e in log]
    if True in flags:
        late = len(flags) - 1 - flags.index(True)
        check(
            late == 0,
            "{}: a perfect packing was found in evaluation {}, but {} more followed (strategies {})",
            kind, flags.index(True), late, [list(e["strategy"]) for e in log[flags.index(True) + 1 :]][:3],
        )
        check(full(build.plain_solution(p), conts), "a perfect packing was found, but the result is {}", build.plain_solution(p))
        ctx.label("perfect at once", flags[0])
        ctx.label("perfect later", not flags[0])
    else:
        n = len(prob["items"])
        if kind == "hs":
            tried = {e["strategy"] for e in log}
            gone = [x for x in op["strategies"] if tuple(x) not in tried]
            check(not gone, "no perfect packing, but strategies {} were not tried", gone)
            last = [k for k, e in enumerate(log) if e["sequence"] is None][-1]
            log = log[last:]
        # the last node's exchanges: since the last improvement (or the start solution)
        best, since = record.objective(log[0]["values"]), 0
        for e in log[1:]:
            since += 1
            v = record.objective(e["values"])
            if v > best:
                best, since = v, 0
        if n > 1:
            check(since >= n * (n - 1) // 2, "{}: no perfect packing, but the search stopped after {} of {} exchanges of its last node", kind, since, n * (n - 1) // 2)
    finish(ctx, p, True in flags)


def finish(ctx, p, found):
    vals = list(p.obj_val_per_container.values())
    near = not found and sum(vals) >= 0.9 * len(vals)
    ctx.mark(found or near)
    ctx.label("perfect", found)
    ctx.label("nearly perfect", near)


_ = searching
