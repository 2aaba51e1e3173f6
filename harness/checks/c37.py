"""C37 Parameters left out mean the documented defaults."""
import build
import figures
import gen
import solving
from core import CAPTURE, check, load, sut
from record import Recorder

RULE = (
    "a problem made twice, once with parameters left out, once with every parameter given its documented default (by keyword, or by "
    "position where that is allowed; in any order), then 1-5 operations (solving, sorting, orienting, both searches, figures, the "
    "strategies of the exhaustive search), each run in both manners; everything observable is compared, in searches also the candidates "
    "tried; non-trivial: at least two operations, each leaving something out"
)
ASSUMPTIONS = ["default values as in the documentation: wide, ('area', True), throttling, all items in order, no figure shown, exhaustive strategies, no settings"]
CONFIG = {
    "quick": {"budget_s": 10, "max_examples": 10**6},
    "thorough": {"budget_s": 200, "max_examples": 10**8},
}

setup = figures.setup

# method: (positional parameters allowed, defaults in order, other values)
DEFAULTS = {
    "solve": (2, [("sequence", None), ("debug", False)]),
    "sort_items": (1, [("sorting_by", ("area", True))]),
    "orient_items": (1, [("orientation", "wide")]),
    "local_search": (0, [("throttle", True), ("debug", False)]),
    "hypersearch": (2, [("orientation", "wide"), ("sorting_by", ("area", True)), ("throttle", True), ("_exhaustive", True)]),
    "create_figure": (1, [("show", False)]),
    "get_strategies": (0, [("_exhaustive", True)]),
}
FIRST = [("containers", None), ("items", None), ("settings", None), ("strip_pack_width", None)]


def strategy(tier):
    return gen.cases(decode)


def decode(s):
    prob = gen.problem(s, mix=("micro", "tiny", "small", "small"), max_items=7, max_containers=3, kinds=("hp", "hp", "hp", "pg"))
    many = s.chance(15)
    if many:
        prob = gen.crowd(s)
    prob.pop("past", None)
    hp = prob["kind"] == "hp"
    ops = []
    for _ in range(s.between(1, 5)):
        name = s.choice(("solve", "solve", "sort_items", "orient_items", "local_search", "local_search", "hypersearch", "create_figure", "get_strategies") if hp else ("solve", "create_figure", "solve"))
        if many and name in ("local_search", "hypersearch"):
            name = "solve"
        names = [k for k, _ in DEFAULTS[name][1]]
        given = [k for k in names if s.chance(3)]
        if given == names:
            given = names[1:]
        # which of the parameters that are left out on one side are given by position on the other
        other = {}
        for k in given:
            if s.flag():
                continue
            if k == "orientation":
                other[k] = s.choice(("long", None))
            elif k == "sorting_by":
                other[k] = s.choice((None, [s.choice(solving.SORTS), s.flag()]))
            elif k in ("throttle", "show", "debug"):
                other[k] = s.flag()
            elif k == "sequence":
                other[k] = gen.sequence(s, len(prob["items"]))
        ops.append({"name": name, "given": given, "values": other, "positional": s.below(DEFAULTS[name][0] + 1), "shuffle": s.below(24)})
    return {
        "prob": prob, "ops": ops, "settings": s.choice(("none", "none", "empty", "omitted", "omitted")) if prob["rotation"] is None else "given",
        "strategies": gen.strategy_lists(s, max_n=3), "throttle": s.choice((1, 2, 3, 5, 2500)), "positional": s.below(4), "tuple": s.flag(),
    }


def made(case, full, cls):
    prob = case["prob"]
    values = {"items": build.items_dict(prob["items"]), "containers": None if prob["strip"] else build.containers_dict(prob["containers"])}
    values["strip_pack_width"] = prob["strip"]
    how = case["settings"]
    values["settings"] = build.settings_of(prob) if how == "given" else {} if how == "empty" else None
    if full:
        k = case["positional"]
        args = [values[n] for n in ("containers", "items", "settings")[:k]]
        rest = {n: values[n] for n in ("strip_pack_width", "settings", "items", "containers") if n not in ("containers", "items", "settings")[:k]}
        p = sut("instantiation", cls, *args, **rest)
    else:
        kw = {"items": values["items"]}
        if prob["strip"]:
            kw["strip_pack_width"] = prob["strip"]
        else:
            kw["containers"] = values["containers"]
        if how in ("given", "empty"):
            kw["settings"] = values["settings"]
        p = sut("instantiation", cls, **kw)
    build.apply_state(p, prob)
    return p


def value(p, name, v):
    if name == "sequence" and v is not None:
        names = list(p.items)
        return [names[j] for j in v if j < len(names)]
    return tuple(v) if name == "sorting_by" and v is not None else v


def called(p, op, full, strategies):
    """What a call gives and what was tried meanwhile."""
    name = op["name"]
    values = dict(DEFAULTS[name][1])
    for k in op["given"]:
        if k in op["values"]:
            values[k] = value(p, k, op["values"][k])
    names = list(values)
    if full:
        args = [values[k] for k in names[: op["positional"]]]
        rest = names[op["positional"] :]
    else:
        args, rest = [], [k for k in names if k in op["given"]]
    if op["shuffle"] and rest:
        k = op["shuffle"] % len(rest)
        rest = rest[k:] + rest[:k]
    kw = {k: values[k] for k in rest}
    p.__dict__.pop("get_strategies", None)
    asked = []
    if name == "hypersearch":

        def some(*a, **k):
            asked.append(a[0] if a else k.get("_exhaustive", True))
            return list(strategies)

        p.get_strategies = some
    CAPTURE.clear()
    with Recorder(type(p)) as rec:
        if name == "create_figure":
            out = figured(p, args, kw)
        else:
            out = sut(name, getattr(p, name), *args, **kw)
    if name == "get_strategies":
        out = [list(x) for x in out]
    tried = [(list(e["sequence"]) if e.get("sequence") is not None else None) for e in rec.entries] if name != "solve" else []
    return {"returned": out, "evaluations": rec.seen, "tried": tried, "asked": asked, "warnings": CAPTURE.of("WARNING") + CAPTURE.of("ERROR")}


def figured(p, args, kw):
    try:
        import plotly.graph_objects as go
    except ImportError:
        return None
    saved, go.Figure = go.Figure, figures.Shown
    figures.Shown.DRAWN.clear()
    try:
        p.create_figure(*args, **kw)
    finally:
        go.Figure = saved
    return list(figures.Shown.DRAWN)


def observed(p):
    d = {"snapshot": build.snapshot(p), "result": build.result(p), "settings": dict(p.settings) if p.settings else {}}
    if hasattr(p, "best_strategy"):
        d["best"] = p.best_strategy and list(p.best_strategy)
    return d


def run_case(case, ctx):
    hp = load()
    prob = case["prob"]
    base = hp.PointGenPack if prob["kind"] == "pg" else hp.HyperPack
    cls = type("Small", (base,), {"MAX_NEIGHBORS_THROTTLE": case["throttle"]})
    short, full = made(case, False, cls), made(case, True, cls)
    lst = [tuple(x) for x in case["strategies"]]
    check(observed(short) == observed(full), "new problems differ: {} / {}", observed(short), observed(full))
    left = 0
    for n, op in enumerate(case["ops"]):
        a = called(short, op, False, lst)
        b = called(full, op, True, lst)
        for k in a:
            check(a[k] == b[k], "operation {} {}: with {} left out {} is {}, with everything given {}", n, op, [k for k, _ in DEFAULTS[op["name"]][1] if k not in op["given"]], k, a[k], b[k])
        x, y = observed(short), observed(full)
        for k in x:
            check(x[k] == y[k], "operation {} {}: {} {} / {}", n, op, k, x[k], y[k])
        left += 1
        ctx.label(op["name"])
    ctx.mark(left >= 2)
