"""C30 Results do not depend on the unit of measurement."""
import copy
import math

import build
import gen
import searching  # noqa: F401
import solving
from core import check

RULE = (
    "a problem (bins and strips, every shape of items, strategy, rotation) and the same with all dimensions multiplied by 2 to 1000 are "
    "solved, locally searched or hypersearched; every placement has to be multiplied likewise, in the same order, with the same objective "
    "values, heights and best strategy; non-trivial: at least three items are placed"
)
ASSUMPTIONS = ["the multiplied containers have at most about 250,000 unit cells"]
CONFIG = {
    "quick": {"budget_s": 14, "max_examples": 10**6},
    "thorough": {"budget_s": 400, "max_examples": 10**8},
}
CELLS = 250_000


def strategy(tier):
    return gen.cases(decode, tier)


def decode(s, tier):
    op = s.choice(("solve",) * 8 + ("ls", "ls", "hs"))
    if op == "solve":
        prob = gen.problem(s, mix=("micro", "tiny", "tiny", "small", "small", "mid"))
        if s.below(3) == 0 and not prob["strip"]:
            prob = gen.rich_problem(s, 9)
    else:
        prob = gen.problem(s, mix=("micro", "tiny", "small"), max_items=6, kinds=("hp",), max_containers=3)
        if not prob["strip"] and s.flag():
            prob = gen.rich_problem(s, 5)
    n = len(prob["items"])
    op = {"solve": solving.solve_op, "ls": lambda s, n: solving.ls_op(s), "hs": lambda s, n: solving.hs_op(s, max_strategies=2)}[op](s, n)
    return {"prob": prob, "ops": [op], "factor": s.choice((2, 2, 3, 3, 4, 5, 7, 9, 10, 13, 25, 64, 100, 400, 1000))}


def times(prob, f):
    q = copy.deepcopy(prob)
    for group in ("items", "containers"):
        for e in q.get(group) or []:
            e[1] *= f
            e[2] *= f
    for key in ("strip", "height", "min_height"):
        if q.get(key):
            q[key] *= f
    return q


def cells(prob):
    if prob["strip"]:
        return prob["strip"] * (prob["height"] or 10 * prob["strip"])
    return sum(c[1] * c[2] for c in prob["containers"])


def state(p, prob, op):
    out = {"solution": build.ordered(p.solution), "values": dict(p.obj_val_per_container), "items": build.plain_items(p)}
    if op["op"] == "hs":
        out["best"] = None if p.best_strategy is None else list(p.best_strategy)
    out["height"] = p.container_height
    return out


def run_case(case, ctx):
    prob, op, f = case["prob"], case["ops"][0], case["factor"]
    most = CELLS // 100 if op["op"] != "solve" and len(prob["items"]) > 20 else CELLS
    f = max(2, min(f, math.isqrt(most // max(1, cells(prob)))))
    q = times(prob, f)
    a, b = build.make(prob), build.make(q)
    solving.run_op(a, prob, op)
    solving.run_op(b, q, op)
    x, y = state(a, prob, op), state(b, q, op)
    want = dict(x)
    want["solution"] = [[c, [[i, [f * v for v in box]] for i, box in s]] for c, s in x["solution"]]
    want["items"] = [[i, f * w, f * l] for i, w, l in x["items"]]
    if want["height"] is not None:
        want["height"] *= f
    for key in want:
        check(want[key] == y[key], "all dimensions times {}: {} is {}, expected {} from {}", f, key, y[key], want[key], x[key])
    placed = sum(len(s) for _, s in x["solution"])
    ctx.mark(placed >= 3)
    ctx.label(solving.op_label(op))
    ctx.label("strip", bool(prob["strip"]))
    ctx.label("several containers", not prob["strip"] and len(prob["containers"]) > 1)
    ctx.label("factor " + ("up to 9" if f < 10 else "10 to 99" if f < 100 else "100 and more"))
    if op["op"] != "solve":
        p0 = build.make(prob)
        p0.solve()
        ctx.label("search improved", a.calculate_obj_value() > p0.calculate_obj_value())
