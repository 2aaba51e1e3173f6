"""C24 Generated problem data is always a valid problem of the asked size."""
import random

import gen
from core import check, load, quiet_stdout, sut

RULE = (
    "numbers of containers 0-60 and items 0-400 (nothing asked for, nothing given) and mean dimensions 1-500 (mostly small and lopsided), each given or left to its default, "
    "with the random generator seeded per case; bounds are checked per value and the average of large samples statistically "
    "(7 standard errors); non-trivial: at least 20 items, or a mean below 3"
)
CONFIG = {
    "quick": {"budget_s": 9, "max_examples": 10**6},
    "thorough": {"budget_s": 200, "max_examples": 10**8},
}
KEYS = ("containers_num", "containers_length", "containers_width", "items_num", "items_length", "items_width")
DEFAULTS = {"containers_num": 1, "containers_length": 50, "containers_width": 50, "items_num": 30, "items_length": 3, "items_width": 5}


def strategy(tier):
    return gen.cases(decode)


def decode(s):
    kw = {}
    for k in KEYS:
        if s.chance(5):
            continue
        if k == "containers_num":
            kw[k] = s.choice((1, 1, 2, 3, 6, 60)) if s.below(15) else s.choice((0, 0, s.between(100, 400), s.between(1001, 4500)))
        elif k == "items_num":
            kw[k] = s.choice((1, 2, 5, 30, 60, 400)) if s.below(15) else s.choice((0, 0, s.between(401, 2000), s.between(2001, 12000)))
        else:
            kw[k] = s.choice((1, 1, 2, 3, 4, 5, 7, 9, 10, 14, 15, 16, 24, 25, 26, 40, 49, 50, 100, s.between(1, 500), s.between(1, 60)))
    if kw.get("containers_num", 1) * kw.get("items_num", 30) > 30000:
        kw["items_num"] = s.between(1, 4)
    return {"kwargs": kw, "seed": s.below(2**31)}


def run_case(case, ctx):
    hp = load()
    kw = case["kwargs"]
    random.seed(case["seed"])
    with quiet_stdout():
        data = sut("generate_problem_data", hp.generate_problem_data, **kw)
    full = dict(DEFAULTS, **kw)
    check(set(data) >= {"containers", "items"}, "data holds {}", list(data))
    conts, items = data["containers"], data["items"]
    check(len(conts) == full["containers_num"], "{} containers for {}", len(conts), kw)
    check(len(items) == full["items_num"] * full["containers_num"], "{} items for {}", len(items), kw)
    if not items or not conts:
        ctx.label("none asked for")
        return
    sut("using the data", hp.HyperPack, containers=conts, items=items)
    for key, mean in (("W", full["containers_width"]), ("L", full["containers_length"])):
        dev = round(mean * 0.1)
        for c, d in conts.items():
            check(abs(d[key] - mean) <= dev and d[key] >= 1, "container {} of {} for {}", c, d, kw)
    # items: the greater of 1 and 60% of the larger mean; averages of large samples tell whose mean it is
    w, l = full["items_width"], full["items_length"]
    bound = max(1, round(0.6 * max(w, l)))
    for key, mean in (("w", w), ("l", l)):
        for i, d in items.items():
            check(abs(d[key] - mean) <= bound and d[key] >= 1, "item {} of {} for {}", i, d, kw)
        dev = max(1, round(0.6 * mean))
        if len(items) >= 100 and mean - dev >= 1:
            avg = sum(d[key] for d in items.values()) / len(items)
            error = 7 * bound / len(items) ** 0.5
            check(abs(avg - mean) <= error, "{} items with {} averaging {} for {}", len(items), key, avg, kw)
            ctx.label("average checked")
    ctx.mark(len(items) >= 20 or min(w, l) < 3)
    ctx.label("mean 1", 1 in (w, l, full["containers_width"], full["containers_length"]))
