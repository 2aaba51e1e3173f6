"""C14 Strip packing keeps all items and only ever lowers the strip."""
import build
import gen
import oracle
import record
import searching
import solving
from core import check, load, sut

RULE = (
    "strip problems (2-8 items, strip heights from too low to the default, with and without minimum height) under local search, "
    "hypersearch, and multi-process hypersearch, 1-3 searches in a row, also with the heights or the items changed in between; every evaluation's strip height, height reached, items and value "
    "are watched; non-trivial: an improvement was accepted, or the strip is too low for all the items"
)
CONFIG = {
    "quick": {"budget_s": 16, "max_examples": 10**6},
    "thorough": {"budget_s": 600, "max_examples": 10**8},
}
TOL = 1e-9
SC = "strip-pack-container"


def strategy(tier):
    return gen.cases(decode, tier)


def decode(s, tier):
    n = s.choice((3, 4, 5, 6, 7, 8)) + (3 if tier == "thorough" and s.chance(3) else 0)
    prob = gen.problem(
        s, mix=("tiny", "small", "small", "mid"), max_items=n, min_items=2, kinds=("hp",), strip=True,
        mode=s.choice(("mixed", "mixed", "small", "thin", "few-kinds", "cut", "cut+", "big")),
    )
    # heights near what the items need
    W = prob["strip"]
    need = -(-sum(w * l for _, w, l in prob["items"]) // W)
    k = s.below(6)
    prob["height"] = None if k < 2 else max(1, s.between(need // 2, 2 * need)) if k < 5 else s.between(1, 10 * W)
    prob["min_height"] = None
    if s.chance(3):
        top = prob["height"] or 10 * W
        prob["min_height"] = min(top, max(1, s.choice((s.between(need // 2, 2 * need), s.between(need // 2, 2 * need), 1, top))))
    ops = []
    if s.chance(40):
        return {"prob": gen.long_strip(s), "ops": [solving.ls_op(s)]}
    for _ in range(s.choice((1, 1, 2, 2, 3))):
        k = s.below(10)
        ops.append(solving.ls_op(s) if k < 5 else solving.hs_op(s, max_strategies=4))
        # between searches: other heights, other items
        for _ in range(s.choice((0, 0, 0, 1, 1, 2))):
            e = s.below(5)
            v = max(1, s.choice((s.between(need // 2, 2 * need), s.between(need, 10 * W + 1))))
            if e == 4:
                other = gen.problem(s, mix=("tiny", "small"), max_items=n, min_items=2, kinds=("hp",), strip=True)["items"]
                ops.append({"op": "edit", "what": "items", "value": [[i, min(w, W), l] for i, w, l in other]})
            else:
                ops.append({"op": "edit", "what": ("height", "height", "min", "reset")[e], "value": v})
    if s.chance(15):
        if s.chance(3):
            prob["min_height"] = 1
        ops = [solving.hs_op(s, workers=s.between(2, 3), max_strategies=4)]
        if s.flag():
            ops[0]["workers"] = max(2, len(ops[0]["strategies"]))  # a worker for each
    return {"prob": prob, "ops": ops}


def run_case(case, ctx):
    hp = load()
    prob = case["prob"]
    p = build.make(prob)
    top = p.container_height
    searches = 0
    for op in case["ops"]:
        if op["op"] == "edit":
            edit(p, op)
            top = p.container_height
            ctx.label("edited between searches: " + op["what"], bool(searches))
            continue
        searches += 1
        minh = p.container_min_height
        n = len(p.items)
        prob = dict(prob, items=build.plain_items(p))
        before = p.container_height
        items = build.plain_items(p)
        mp = op.get("workers", 1) > 1
        if op["op"] == "hs":
            q = build.make(dict(prob, items=items), fresh=True)
            items = searching.prepared(dict(prob, items=items), op)
        # the plain solution from the same state
        q = build.make(dict(prob, items=items, height=None, min_height=None), fresh=True)
        q.container_height = before
        if minh is not None:
            q.container_min_height = minh
        q.potential_points_strategy = p.potential_points_strategy
        sut("solve", q.solve)
        plain = q.solution[SC]
        plain_h, plain_all = oracle.height_of(plain), len(plain) == n
        with record.Recorder(hp.HyperPack) as rec:
            solving.run_op(p, prob, op)
        sol = p.solution[SC]
        h, full = oracle.height_of(sol), len(sol) == n
        check(h <= before and h <= top, "{}: the solution reaches {} in a strip of {}", op["op"], h, before)
        check(p.container_min_height == minh, "minimum height {} became {}", minh, p.container_min_height)
        check(p.calculate_obj_value() >= q.calculate_obj_value() - TOL, "{} ends with {} below the plain solution {}", op["op"], p.calculate_obj_value(), q.calculate_obj_value())
        if minh is None and plain_all:
            check(full, "{}: the plain solution holds all {} items, the result only {}", op["op"], n, len(sol))
            check(h <= plain_h, "{}: the plain solution reaches {}, the result {}", op["op"], plain_h, h)
        now = p.container_height
        check(now <= before and (minh is None or now >= minh) and now >= 1, "{}: strip height {} became {} (minimum {})", op["op"], before, now, minh)
        if mp:
            check(now == before, "multi-process hypersearch changed the strip height from {} to {}", before, now)
            if op["workers"] >= len(op["strategies"]):
                side_by_side(p, dict(prob, items=items), op, before, minh, q, ctx)
            ctx.label("multi-process")
            ctx.mark(h < plain_h)
            continue
        if op["op"] == "hs":
            one_after_another(p, dict(prob, items=items), op, before, minh, q, ctx)
        accepted = watch(rec.entries, before, now, minh, n, op["op"]) if rec.entries else 0
        if op["op"] == "ls" and rec.entries and minh is None:
            # the result is the start solution or holds everything
            check(full or build.plain_solution(p)[SC] == rec.entries[0]["solution"][SC], "local search replaced the start solution by one of {} of {} items", len(sol), n)
        if op["op"] == "ls" and rec.entries:
            want = before if not accepted else max(h, minh or 0)
            check(now == want, "local search: {} improvements, solution height {}, minimum {}, but the strip height {} became {}", accepted, h, minh, before, now)
        ctx.mark(accepted or not plain_all)
        ctx.label("improved", bool(accepted))
        ctx.label("improved twice", accepted > 1)
        ctx.label("strip too low", not plain_all)
        ctx.label("minimum height", minh is not None)
        ctx.label("minimum height above the solution", bool(minh and minh > h))
    ctx.label("second search", searches > 1)


def edit(p, op):
    hp = load()
    try:
        if op["what"] == "items":
            p.items = {i: {"w": w, "l": l} for i, w, l in op["value"]}
        elif op["what"] == "reset":
            p.reset_container_height()
        elif op["what"] == "min":
            p.container_min_height = op["value"]
        else:
            p.container_height = op["value"]
    except (hp.DimensionsError, hp.ContainersError):
        pass  # not within the other height


def in_state(prob, height, minh):
    t = build.make(dict(prob, height=None, min_height=None), fresh=True)
    t.container_height = height
    if minh is not None:
        t.container_min_height = minh
    return t


def side_by_side(p, prob, op, height, minh, plain, ctx):
    """The multi-process hypersearch with a worker for each strategy: the best of what they find."""
    n = len(prob["items"])
    found = [(plain.calculate_obj_value(), build.plain_solution(plain))]
    start = found[0]
    for strat in op["strategies"]:
        t = in_state(prob, height, minh)
        t.potential_points_strategy = tuple(strat)
        sut("local_search", t.local_search, throttle=op["throttle"])
        value, sol = t.calculate_obj_value(), build.plain_solution(t)
        if value > start[0] and not (minh is None and len(start[1][SC]) == n > len(sol[SC])):
            found.append((value, sol))
    best = max(v for v, _ in found)
    check(
        abs(p.calculate_obj_value() - best) <= TOL and build.plain_solution(p) in [x for v, x in found if v >= best - TOL],
        "{} workers end with {} ({}), the searches of the strategies and the plain solution with {}", op["workers"], p.calculate_obj_value(), build.plain_solution(p), found,
    )
    ctx.label("workers' best against the local searches", len(found) > 1)


def one_after_another(p, prob, op, height, minh, plain, ctx):
    """The hypersearch against local searches with its strategies, each in the strip its predecessors left."""
    n = len(prob["items"])
    t = in_state(prob, height, minh)
    found = [(plain.calculate_obj_value(), build.plain_solution(plain))]
    best = found[0]
    for strat in op["strategies"]:
        t.potential_points_strategy = tuple(strat)
        sut("local_search", t.local_search, throttle=op["throttle"])
        found.append((t.calculate_obj_value(), build.plain_solution(t)))
        value, sol = found[-1]
        if value > best[0] and not (minh is None and len(best[1][SC]) == n > len(sol[SC])):
            best = found[-1]
    # values that differ by rounding only decide nothing
    tie = any(0 < abs(a[0] - b[0]) <= TOL for a in found for b in found)
    if tie:
        ctx.label("undecided: values differ by rounding")
        return
    sol = build.plain_solution(p)
    check(
        abs(p.calculate_obj_value() - best[0]) <= TOL and sol == best[1],
        "hypersearch ends with {} ({}), its local searches one after another with {} ({})", p.calculate_obj_value(), sol, best[0], best[1],
    )
    check(p.container_height == t.container_height, "hypersearch leaves the strip at {}, its local searches one after another at {}", p.container_height, t.container_height)
    ctx.label("best strategy against the local searches", best is not found[0])
    ctx.label("a better value dropped for its missing items", max(v for v, _ in found) > best[0])


def watch(entries, before, after, minh, n, what):
    """Strip heights over a search. Returns the number of accepted improvements seen."""
    heights = [e["height"] for e in entries] + [after]
    check(heights[0] == before, "{}: first evaluation in a strip of {} instead of {}", what, heights[0], before)
    accepted = 0
    best = None
    for k, e in enumerate(entries):
        placed = e["solution"][SC]
        value = sum(e["values"].values())
        reach = oracle.height_of(placed)
        check(reach <= e["height"], "{}: evaluation {} reaches {} in a strip of {}", what, k, reach, e["height"])
        if e["sequence"] is None:
            best = value  # a start solution
            improves = False
        else:
            improves = value > best and (minh is not None or len(placed) == n)
        nxt = heights[k + 1]
        check(nxt <= e["height"], "{}: strip height grew from {} to {}", what, e["height"], nxt)
        if improves:
            accepted += 1
            best = value
            want = max(reach, minh or 0)
            check(nxt == want, "{}: evaluation {} was accepted with height {} (minimum {}), but the strip height became {}", what, k, reach, minh, nxt)
        else:
            check(nxt == e["height"], "{}: strip height {} became {} after evaluation {}, which is no improvement (value {}, best {}, {} of {} items)", what, e["height"], nxt, k, value, best, len(placed), n)
    return accepted
