"""C31 A problem survives deep copying and pickling."""
import copy
import pickle

import apiops
import build
import figures
import gen
from checks import c26
from core import check, load, sut

RULE = (
    "a problem after 0-4 operations of every kind is deep-copied or pickled and restored (once or twice): the copy has to show the same "
    "state, then 1-5 operations on either of the two give the same observations as on a twin made by repeating the history, and leave the "
    "other one untouched; non-trivial: the copy solves after it was made, or its data changes"
)
ASSUMPTIONS = ["copies are made with copy.deepcopy and pickle (every protocol); shallow copies are not covered"]
CONFIG = {
    "quick": {"budget_s": 10, "max_examples": 10**6},
    "thorough": {"budget_s": 300, "max_examples": 10**8},
}


setup = figures.setup


def strategy(tier):
    return gen.cases(decode)


def decode(s):
    prob = gen.problem(s, mix=("micro", "tiny", "small"), max_items=6, max_containers=3)
    many = s.chance(30)
    if many:
        prob = gen.crowd(s)
    before, after = [c26.op(s, prob) for _ in range(gen.length(s, 0, 4, 40))], [[s.below(2), c26.op(s, prob)] for _ in range(s.between(1, 5))]
    if many:
        gen.without_searches(before)
        gen.without_searches([o for _, o in after])
    return {
        "prob": prob, "before": before, "after": after,
        "how": s.choice(("deepcopy", "deepcopy", "pickle")), "protocol": s.choice((0, 1, 2, 3, 4, 5, 5)), "twice": s.chance(5),
    }


def copied(p, case):
    if case["how"] == "deepcopy":
        return sut("deepcopy", copy.deepcopy, p)
    return pickle.loads(sut("pickling", pickle.dumps, p, protocol=case["protocol"]))


def run_case(case, ctx):
    load()
    prob = case["prob"]

    def with_history():
        p = c26.fresh(prob)
        for o in case["before"]:
            c26.perform(p, o)
        p.__dict__.pop("get_strategies", None)  # set by the harness
        return p

    p, twins = with_history(), [with_history(), with_history()]
    now = c26.state(p)
    q = copied(p, case)
    if case["twice"]:
        q = copied(q, case)
    check(type(q) is type(p), "a copy is a {}", type(q))
    check(c26.state(p) == now, "copying changed the problem from {} to {}", now, c26.state(p))
    check(c26.state(q) == now, "the copy differs: {} instead of {}", c26.state(q), now)
    check(str(q.items) == str(p.items) and str(q.containers) == str(p.containers), "the copy prints differently")
    both = [p, q]
    for k, o in case["after"]:
        other = c26.state(both[1 - k])
        got, want = c26.perform(both[k], o), c26.perform(twins[k], o)
        check(got == want, "{} on the {}: {} instead of {}", o, ("original", "copy")[k], got, want)
        check(c26.state(both[1 - k]) == other, "{} on the {} changed the {} from {} to {}", o, ("original", "copy")[k], ("copy", "original")[k], other, c26.state(both[1 - k]))
        ctx.mark(k == 1 and (o["op"] in ("solve", "ls", "hs") or "on" in o))
    ctx.label(case["how"])
    ctx.label("solved when copied", bool(now["solution"]))
    ctx.label("strip", bool(prob["strip"]))
