"""C23 A potential points strategy is accepted exactly when valid."""
import apiops
import build
import gen
from core import check, load, sut

RULE = (
    "histories of 1-6 assignments to the strategy: tuples of distinct class names of any length, and values with one fault "
    "(other type, foreign element of any type, unknown name, duplicate at any distance), and deletions; non-trivial: an accepted "
    "strategy followed by a rejected one, and the strategy is then used to solve"
)
CONFIG = {
    "quick": {"budget_s": 9, "max_examples": 10**6},
    "thorough": {"budget_s": 200, "max_examples": 10**8},
}


def strategy(tier):
    return gen.cases(decode)


def decode(s):
    prob = gen.problem(s, mix=("tiny", "small"), max_items=8)
    prob["pp"] = None
    history = []
    for _ in range(gen.length(s, 1, 6, 60)):
        history.append({"op": "del"} if s.chance(9) else {"op": "set", "value": apiops.disguised(s, apiops.strategy_value(s))})
    return {"prob": prob, "history": history}


def run_case(case, ctx):
    load()
    prob = case["prob"]
    p = build.make(prob)
    now = p.potential_points_strategy
    check(isinstance(now, tuple) and sorted(now) == sorted(gen.CLASSES), "default strategy {}", now)
    accepted = rejected_after = 0
    for op in case["history"]:
        if op["op"] == "del":
            e, _ = apiops.outcome(delattr, p, "potential_points_strategy")
            fault = "PotentialPointsError"
        else:
            v = apiops.val(op["value"])
            fault = apiops.strategy_fault(v)
            e, _ = apiops.outcome(setattr, p, "potential_points_strategy", v)
        got = apiops.exc_name(e)
        if fault:
            check(got == fault, "{} gave {} instead of {}", op, got, fault)
            rejected_after += accepted > 0
        else:
            check(e is None, "valid strategy {} raised {}: {}", v, got, e)
            now = v
            accepted += 1
        seen = p.potential_points_strategy
        check(isinstance(seen, tuple) and seen == now, "strategy reads {} instead of {}", seen, now)
    sut("solve", p.solve)
    q = build.make(dict(prob, pp=list(now)), fresh=True)
    q.solve()
    check(build.result(p) == build.result(q), "strategy {} in force gives another solution", now)
    ctx.mark(accepted and rejected_after)
    ctx.label("accepted", accepted > 0)
