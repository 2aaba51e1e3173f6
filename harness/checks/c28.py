"""C28 Class constants of a subclass govern its instances, and only them."""
import itertools

import apiops
import build
import clock
import gen
import oracle
import record
import refmodel
import solving
from checks import c06, c18
from core import check, load, sut

RULE = (
    "subclasses of both classes with class constants of their own: the settings' defaults with settings that give any part of them "
    "(effect observed as in C18), the height of a new strip, the near/far ratios (against the construction model), the throttle "
    "(evaluations counted), the default strategy and the suffix of the search strategies (the strategies and an exhaustive hypersearch); "
    "the library's own class, made before and after, keeps its constants; non-trivial: the constant differs from the library's and its effect was observed"
)
ASSUMPTIONS = ["constants solving needs (near/far ratios) are observed in one process: workers search with the library's class"]
CONFIG = {
    "quick": {"budget_s": 12, "max_examples": 10**6},
    "thorough": {"budget_s": 300, "max_examples": 10**8},
}


def setup(tier, index):
    load()
    clock.install()


def strategy(tier):
    return gen.cases(decode)


def decode(s):
    kind = s.choice(("defaults", "defaults", "strip", "ratio", "ratio", "throttle", "strategies", "strategies"))
    case = {"kind": kind, "depth": s.choice((1, 1, 2))}
    if kind == "defaults":
        consts = {}
        if s.below(3):
            consts["rotation"] = s.flag()
        if s.below(3):
            consts["max_time_in_seconds"] = s.choice((1, 2, 7, 59, 61, 600))
        if s.below(3):
            consts["workers_num"] = s.choice((1, 2, 3, 4))
        given = {}
        if s.flag():
            given["rotation"] = s.choice((True, False, None))
        if s.flag():
            given["max_time_in_seconds"] = s.choice((1, 5, 60, 100))
        if s.flag():
            given["workers_num"] = s.choice((1, 2, None))
        case.update(
            hp=s.below(4) > 0, consts=consts, given=given if s.below(6) else None, how=s.choice(("new", "new", "assign", "validate")),
            probe=s.choice(("rotation", "time", "workers", "workers")), mp=s.chance(3),
        )
        if not case["hp"]:
            case["probe"] = "rotation"
    elif kind == "strip":
        case.update(width=s.between(1, 12), ratio=s.between(1, 30), change=s.between(1, 50), hp=s.flag())
    elif kind == "ratio":
        prob = gen.problem(
            s, mix=("tiny",) + ("small",) * 6 + ("mid",) * 6, strip=s.chance(8), max_containers=2, min_items=10, rotation=s.chance(5),
            mode=s.choice(("small", "small", "smaller", "mixed", "few-kinds")),
        )
        k = s.below(4)
        prob["pp"] = s.perm(gen.CLASSES)
        if k:
            first = s.perm(("A_", "E") if k == 1 else ("B_", "F") if k == 2 else ("E", "F", "A_", "B_"))[: s.between(1, 4)]
            prob["pp"] = first + [c for c in prob["pp"] if c not in first]
        case.update(prob=prob, near=[s.choice((0, 0.05, 0.1, 0.3, 0.5, 1, 0.2)), s.choice((0, 0.05, 0.1, 0.3, 0.5, 1, 0.2))])
    elif kind == "throttle":
        prob = gen.rich_problem(s, 9)
        case.update(prob=prob, constant=s.choice((1, 2, 3, 5, 8, 13, 21, 34)), throttle=s.below(4) > 0, hs=s.chance(3))
    else:
        prob = gen.rich_problem(s, 4)
        prob["pp"] = None
        prob["items"] = prob["items"][:5]
        base = s.perm(gen.CLASSES)[: s.between(1, 6)]
        k = s.between(max(0, len(base) - 3), len(base))
        case.update(prob=prob, base=base, suffix=s.sample(base, k) if k else [], run=s.below(3) > 0)
    return case


def subclass(base, consts, depth):
    cls = base
    for k in range(depth):
        cls = type(f"Own{k}", (cls,), dict(consts) if k == 0 else {})
    return cls


def run_case(case, ctx):
    {"defaults": defaults, "strip": strip, "ratio": ratio, "throttle": throttle, "strategies": strategies}[case["kind"]](case, ctx)
    ctx.label("kind " + case["kind"])


NAMES = {"rotation": "ROTATION_DEFAULT_VALUE", "max_time_in_seconds": "MAX_TIME_IN_SECONDS_DEFAULT_VALUE", "workers_num": "WORKERS_NUM_DEFAULT_VALUE"}


def defaults(case, ctx):
    mod = load()
    hp = case["hp"]
    own = subclass(mod.HyperPack if hp else mod.PointGenPack, {NAMES[k]: v for k, v in case["consts"].items()}, case["depth"])
    library = dict(apiops.effective({}))

    def make(cls, settings):
        items = {"long": {"w": 1, "l": 7}}
        items.update({f"i{k}": {"w": 1, "l": 1} for k in range(8)})
        return sut("instantiation", cls, containers={"c": {"W": 9, "L": 5}}, items=items, settings=settings)

    def effective(base, given):
        out = dict(base)
        out.update({k: v for k, v in (given or {}).items() if v is not None})
        return out

    given = case["given"]
    before = make(own.__mro__[case["depth"]], {})
    if case["how"] == "new":
        p = make(own, given)
    else:
        p = make(own, {"rotation": True, "max_time_in_seconds": 33, "workers_num": 5})
        if case["how"] == "assign":
            p.settings = given or {}
        else:
            p.settings.clear()
            p.settings.update(given or {})
            p.validate_settings()
    model = effective({**library, **case["consts"]}, given)
    c18.in_force(p, model, hp, f"subclass with {case['consts']}, settings {given}")
    c18.in_force(before, library, hp, "the library's class")
    c18.in_force(make(own.__mro__[case["depth"]], given), effective(library, given), hp, "the library's class, made afterwards")
    c18.observe(p, model, {"probe": case["probe"], "hp": hp, "mp": case["mp"], "history": []}, ctx)
    ctx.mark(any(model[k] == v != library[k] and (given or {}).get(k) is None for k, v in case["consts"].items()))


def strip(case, ctx):
    mod = load()
    base = mod.HyperPack if case["hp"] else mod.PointGenPack
    own = subclass(base, {"MAX_W_L_RATIO": case["ratio"]}, case["depth"])
    W, r = case["width"], case["ratio"]
    items = {"a": {"w": 1, "l": 1}}
    p = sut("instantiation", own, strip_pack_width=W, items=items)
    check(p.container_height == r * W, "ratio {}: the strip of width {} starts at {}", r, W, p.container_height)
    p.container_height = case["change"]
    check(p.container_height == case["change"], "height reads {}", p.container_height)
    p.reset_container_height()
    check(p.container_height == r * W and p.container_min_height is None, "ratio {}: the strip of width {} is reset to {}", r, W, p.container_height)
    q = sut("instantiation", base, strip_pack_width=W, items=items)
    check(q.container_height == 10 * W, "the library's strip of width {} starts at {}", W, q.container_height)
    # a tall item fits exactly when the height allows it
    for tall in (r * W, r * W + 1):
        q = sut("instantiation", own, strip_pack_width=W, items={"t": {"w": 1, "l": tall}}, settings={"rotation": False})
        q.solve()
        packed = bool(q.solution["strip-pack-container"])
        check(packed == (tall <= r * W), "ratio {}, width {}: an item of length {} is {}packed", r, W, tall, "" if packed else "not ")
    ctx.mark(r != 10)


def ratio(case, ctx):
    mod = load()
    prob = case["prob"]
    base = mod.PointGenPack if prob["kind"] == "pg" else mod.HyperPack
    own = subclass(base, {"RATIO_FOR_POINT_A_": case["near"][0], "RATIO_FOR_POINT_B_": case["near"][1]}, case["depth"])
    p = build.make(prob, cls=own)
    sut("solve", p.solve)
    conts = solving.conts_in_force(prob, p.container_height)
    strat = list(p.potential_points_strategy)
    want = refmodel.solve(prob["items"], conts, strat, build.rotation_on(prob), near=case["near"])
    c06.compare(build.ordered(p.solution), want)
    q = build.make(prob, cls=base)
    q.solve()
    plain = refmodel.solve(prob["items"], conts, strat, build.rotation_on(prob))
    c06.compare(build.ordered(q.solution), plain)
    ctx.mark(want != plain)
    ctx.label("ratios made a difference", want != plain)


def throttle(case, ctx):
    mod = load()
    prob = case["prob"]
    own = subclass(mod.HyperPack, {"MAX_NEIGHBORS_THROTTLE": case["constant"]}, case["depth"])
    p = build.make(prob, cls=own)
    n = len(prob["items"])
    pairs = n * (n - 1) // 2
    limit = min(pairs, case["constant"]) if case["throttle"] else pairs
    with record.Recorder(mod.HyperPack) as rec:
        if case["hs"]:
            solving.set_strategies(p, [gen.POOL])
            sut("hypersearch", p.hypersearch, orientation=None, sorting_by=None, throttle=case["throttle"])
        else:
            sut("local_search", p.local_search, throttle=case["throttle"])
    if not rec.seen:
        ctx.label("evaluations not observable")
        return
    # evaluations since the last improvement
    values = [record.objective(e["values"]) for e in rec.entries]
    if case["hs"]:
        values = values[1:]
    best, run, longest = None, 0, 0
    for v in values:
        if best is None or v > best:
            best, run = v, 0
        else:
            run += 1
            longest = max(longest, run)
    check(longest <= limit, "{} exchanges tried at one node, {} allowed", longest, limit)
    check(not values or best >= p.get_optimum_objective_val() or run == limit, "gave up after {} exchanges, {} are due", run, limit)
    ctx.mark(case["throttle"] and case["constant"] < pairs and bool(values))


def strategies(case, ctx):
    mod = load()
    prob = case["prob"]
    base, suffix = tuple(case["base"]), tuple(case["suffix"])
    own = subclass(mod.HyperPack, {"DEFAULT_POTENTIAL_POINTS_STRATEGY": base, "STRATEGIES_SUFFIX": suffix}, case["depth"])
    p = build.make(prob, cls=own)
    check(tuple(p.potential_points_strategy) == base, "the strategy starts as {} instead of {}", p.potential_points_strategy, base)
    q = build.make(prob)
    check(len(q.potential_points_strategy) == 10, "the library's class starts with {}", q.potential_points_strategy)
    free = [x for x in base if x not in suffix]
    want = {x + suffix for x in itertools.permutations(free)}
    got = [tuple(x) for x in sut("get_strategies", p.get_strategies)]
    check(len(got) == len(set(got)), "strategies are repeated")
    check(set(got) == want, "suffix {}: strategies {} instead of {}", suffix, got, sorted(want))
    if case["run"]:
        sut("hypersearch", p.hypersearch, orientation=None, sorting_by=None)
        best = build.make(dict(prob, pp=list(base)), fresh=True)
        best.solve()
        value = best.calculate_obj_value()
        for x in want:
            q = build.make(dict(prob, pp=list(x)), fresh=True)
            q.local_search()
            value = max(value, q.calculate_obj_value())
        check(abs(p.calculate_obj_value() - value) <= 1e-9, "exhaustive hypersearch ends with {}, the best of its {} strategies with {}", p.calculate_obj_value(), len(want), value)
        ctx.label("exhaustive hypersearch", len(want) > 1)
        check(tuple(p.potential_points_strategy) == base, "the strategy became {}", p.potential_points_strategy)
    ctx.mark(len(want) > 1)
