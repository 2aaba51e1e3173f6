"""C29 The text of items and containers shows exactly what they hold."""
import apiops
import build
import gen
import solving
from core import check, load, sut

RULE = (
    "0-5 structure operations (valid and invalid), sorting, orienting, strip heights and solving on problems of both classes with ids of "
    "every kind, and structure operations on structures of no problem; after each of them str() of items and containers is compared "
    "with the entries present, in order; non-trivial: some "
    "operation changed the entries"
)
CONFIG = {
    "quick": {"budget_s": 8, "max_examples": 10**6},
    "thorough": {"budget_s": 200, "max_examples": 10**8},
}


def strategy(tier):
    return gen.cases(decode)


def decode(s):
    prob = gen.problem(s, mix=("micro", "tiny", "small"), max_items=8, max_containers=5)
    if s.chance(25):
        prob = gen.crowd(s)
    ops = []
    for _ in range(gen.length(s, 0, 5, 60)):
        k = s.below(10)
        if k < 6:
            o = apiops.structure_op(s, which="items" if prob["strip"] else None)
            ops.append(o)
        elif k < 8 and prob["kind"] == "hp":
            ops.append(s.choice(({"op": "sort", "by": [s.choice(solving.SORTS), s.flag()]}, {"op": "orient", "how": s.choice(("wide", "long"))})))
        elif k == 8 and prob["strip"]:
            ops.append(apiops.height_op(s))
        else:
            ops.append({"op": "solve"})
    case = {"prob": prob, "ops": ops}
    if not prob["strip"] and s.chance(10):
        case["alone"] = True
        case["ops"] = [o for o in ops if "on" in o and o["op"] != "del_attr"]
    return case


def expected(p, which, strip):
    d = p.items if which == "items" else p.containers
    a, b = apiops.KEYS[which]
    text = "Items" if which == "items" else "Containers"
    for i in d:
        text += f"\n  - id: {i}\n    width: {d[i][a]}\n"
        if which == "items" or not strip:
            text += f"    length: {d[i][b]}\n"
    return text


def run_case(case, ctx):
    load()
    prob = case["prob"]
    if case.get("alone"):
        p = apiops.Alone(build.items_dict(prob["items"]), build.containers_dict(prob["containers"]))
        p.solution = {}
        ctx.label("structures of no problem")
    else:
        p = build.make(prob)
    strip = bool(prob["strip"])
    for o in [None] + case["ops"]:
        before = (build.plain_items(p), build.plain_containers(p))
        if o is None:
            pass
        elif "on" in o:
            if max((v for v in numbers(o)), default=0) > 10**7:
                ctx.label("huge dimension")
            apiops.outcome(apiops.run_structure_op, p, o)
        elif o["op"] == "sort":
            p.sort_items(sorting_by=tuple(o["by"]))
        elif o["op"] == "orient":
            p.orient_items(o["how"])
        elif o["op"] == "solve":
            if sum(w * l for _, w, l in build.plain_containers(p)) < 10**5 or strip:
                p.solve()
        else:
            apiops.outcome(apiops.run_height_op, p, o)
            if p.container_height > 500:
                p.container_height = 500
        state = (build.plain_items(p), build.plain_containers(p), build.ordered(p.solution))
        for which in ("items", "containers"):
            got = sut(f"str of {which}", str, p.items if which == "items" else p.containers)
            want = expected(p, which, strip)
            check(got == want, "text of {} is {!r}, expected {!r}", which, got, want)
        check(state == (build.plain_items(p), build.plain_containers(p), build.ordered(p.solution)), "printing changed the problem")
        ctx.mark(state[:2] != before)
    ctx.label("strip", strip)


def numbers(x):
    if isinstance(x, bool):
        return
    if isinstance(x, int):
        yield x
    elif isinstance(x, dict):
        for v in x.values():
            yield from numbers(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from numbers(v)
