"""C25 Every library error is logged and is the documented type."""
import os
import sys
import types

import apiops
import build
import gen
import solving
from checks import c19
from core import CAPTURE, check, load, quiet_stdout

RULE = (
    "1-10 operations of every kind on one problem (instantiation, structures, heights, settings, figure settings, strategy, attribute "
    "deletions, figures that fail, hypersearch whose workers all fail, and solving), valid and faulty; each rejection must be the "
    "documented class with one of its messages, logged at ERROR; non-trivial: at least one rejection and one success"
)
CONFIG = {
    "quick": {"budget_s": 12, "max_examples": 10**6},
    "thorough": {"budget_s": 300, "max_examples": 10**8},
}


# what an export may fail with
FAILURES = {
    "message": lambda: OSError("disk full"),
    "number and message": lambda: OSError(28, "disk full"),
    "nothing": lambda: MemoryError(),
    "key": lambda: KeyError("path"),
    "braces": lambda: ValueError("bad {value} {0} {}"),
    "percent": lambda: RuntimeError("50% of %s %d"),
    "two": lambda: Exception("disk", "full"),
    "object": lambda: ValueError({"a": 1}),
    "lines": lambda: RuntimeError("disk\nfull"),
    "text": lambda: UnicodeEncodeError("ascii", "\u00e9", 0, 1, "ordinal not in range"),
}
FAILURE = [None]


def setup(tier, index):
    load()
    c19.setup(tier, index)
    # a plotly whose exports fail
    m = types.ModuleType("plotly")
    m.__version__ = "5.24.1"
    g = types.ModuleType("plotly.graph_objects")

    class Figure:
        def __init__(self, *a, **k):
            pass

        def write_html(self, *a, **k):
            raise FAILURE[0]

        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            return lambda *a, **k: self

    g.Figure = g.Scatter = Figure
    m.graph_objects = g
    sys.modules["plotly"] = m
    sys.modules["plotly.graph_objects"] = g


teardown = c19.teardown


def strategy(tier):
    return gen.cases(decode)


def decode(s):
    strip = s.between(1, 12) if s.chance(3) else None
    prob = {
        "kind": s.choice(("hp", "hp", "pg")), "strip": strip, "rotation": None, "pp": None,
        "containers": None if strip else [["a", 6, 6], ["b", 3, 9]][: s.between(1, 2)],
        "items": [[i, s.between(1, 5), s.between(1, 5)] for i in ("a", "b", "c")[: s.between(1, 3)]],
    }
    history = []
    for _ in range(gen.length(s, 1, 10, 60)):
        k = s.below(24)
        if k < 8:
            history.append(apiops.structure_op(s))
        elif k < 11 and strip:
            history.append(apiops.height_op(s, strip))
        elif k < 14:
            history.append({"op": "settings", "value": apiops.settings_value(s), "how": s.choice(("assign", "validate"))})
        elif k < 16:
            history.append({"op": "figure-settings", "value": c19.figure(s)})
        elif k < 18:
            history.append({"op": "strategy", "value": apiops.strategy_value(s)})
        elif k == 18:
            history.append({"op": "delete", "name": s.choice(("items", "containers", "settings", "potential_points_strategy", "container_height", "container_min_height"))})
        elif k == 19:
            history.append({"op": "new", "items": apiops.bad_struct(s, "items") if s.flag() else apiops.good_struct(s, "items"), "containers": apiops.bad_struct(s, "containers") if s.flag() else apiops.good_struct(s, "containers")})
        elif k == 20:
            history.append({"op": "export", "with": s.choice(tuple(FAILURES))})
        elif k == 21 and s.chance(8):
            history.append({"op": "workers fail"})
        else:
            history.append({"op": s.choice(("solve", "solve", "log", "read", "sort", "orient"))})
    return {"prob": prob, "history": history}


DELETED = {
    "items": {"ItemsError"}, "containers": {"ContainersError"}, "settings": {"SettingsError"},
    "potential_points_strategy": {"PotentialPointsError"}, "container_height": {"DimensionsError"}, "container_min_height": {"DimensionsError"},
}


def run_case(case, ctx):
    if c19.PLACES is None:
        setup("quick", 0)
    hp = load()
    prob = case["prob"]
    p = build.make(prob)
    is_hp = prob["kind"] == "hp"
    ok = rejected = 0
    for n, op in enumerate(case["history"]):
        k = op["op"]
        where = f"operation {n} {op}"
        expect, natural = set(), False
        CAPTURE.clear()
        if "on" in op:
            pred = apiops.predict_structure(apiops.view(p, op["on"]), op, bool(prob["strip"]))
            expect = pred.error or set()
            e, _ = apiops.outcome(apiops.run_structure_op, p, op)
            if "KeyError" in expect and apiops.exc_name(e) == "KeyError":
                continue
        elif k in ("height", "min_height", "reset", "del_height", "del_min_height"):
            want, _ = apiops.predict_height((p.container_height, p.container_min_height), op, prob["strip"])
            expect = want or set()
            e, _ = apiops.outcome(apiops.run_height_op, p, op)
        elif k in ("settings", "figure-settings"):
            if k == "settings":
                v = apiops.val(op["value"])
                fault = apiops.settings_fault(v, is_hp)
            else:
                v = {"figure": c19.value(op["value"])}
                fault = c19.fault(v["figure"], "5.24.1", None)
            expect = {"SettingsError"} if fault else set()
            if op.get("how") == "validate" and isinstance(v, dict):
                old = dict(p.settings)
                p.settings.clear()
                p.settings.update(v)
                e, _ = apiops.outcome(p.validate_settings)
                if e is not None:
                    check_one(hp, e, expect, where)
                    rejected += 1
                    p.settings = old
                    continue
            else:
                e, _ = apiops.outcome(setattr, p, "settings", v)
        elif k == "strategy":
            v = apiops.val(op["value"])
            f = apiops.strategy_fault(v)
            expect = {f} if f else set()
            e, _ = apiops.outcome(setattr, p, "potential_points_strategy", v)
        elif k == "delete":
            expect = DELETED[op["name"]]
            e, _ = apiops.outcome(delattr, p, op["name"])
        elif k == "new":
            items, conts = apiops.val(op["items"]), apiops.val(op["containers"])
            expect = {f for f in (apiops.struct_fault(items, "items"), apiops.struct_fault(conts, "containers")) if f}
            e, _ = apiops.outcome(hp.HyperPack if is_hp else hp.PointGenPack, items=items, containers=conts)
        elif k == "export":
            old = p.settings
            p.settings = {"figure": {"export": {"type": "html", "path": c19.PLACES.dir}}}
            sizes = [x for w in ("items", "containers") for d in apiops.view(p, w).values() for x in d.values()]
            if not prob["strip"] and max(sizes) > 100:
                continue
            solve(p)
            FAILURE[0] = FAILURES[op["with"]]()
            e, _ = apiops.outcome(p.create_figure)
            expect = {"FigureExportError"}
            check(apiops.exc_name(e) in expect, "{} gave {!r}", where, e)
            text = str(e)
            start = hp.exceptions.FigureExportError.FIGURE_EXPORT.split("{")[0]
            check(text.startswith(start) and str(FAILURE[0]) in text, "{}: text {!r}", where, text)
            check(text in CAPTURE.of("ERROR"), "{}: {!r} was not logged: {}", where, text, CAPTURE.of("ERROR"))
            p.settings = old
            rejected += 1
            ctx.label("FigureExportError, failed with " + op["with"])
            continue
        elif k == "workers fail":
            if not is_hp:
                continue
            p.settings = {"workers_num": 2}
            solving.set_strategies(p, [gen.POOL, gen.CLASSES])
            expect = {"MultiProcessError"}
            e, _ = apiops.outcome(p.hypersearch, _force_raise_error_index="all")
            ctx.label("MultiProcessError")
        else:
            sizes = [x for w in ("items", "containers") for d in apiops.view(p, w).values() for x in d.values()]
            if k == "solve":
                if not prob["strip"] and max(sizes) > 100:
                    continue
                if prob["strip"] and p.container_height > 5000:
                    continue
                e, _ = apiops.outcome(p.solve)
            elif k == "log":
                e, _ = apiops.outcome(p.log_solution)
            elif k == "read":
                e, _ = apiops.outcome(lambda: (str(p.items), str(p.containers), len(p.items), p.solution))
            elif not is_hp:
                continue
            elif k == "sort":
                e, _ = apiops.outcome(p.sort_items)
            else:
                e, _ = apiops.outcome(p.orient_items)
        if expect and e is None and "KeyError" in expect:
            continue
        check_one(hp, e, expect, where)
        ok += not expect
        rejected += bool(expect)
        ctx.label((k + " on " + op["on"] if "on" in op else k) + (" rejected" if expect else " accepted"))
    ctx.mark(ok and rejected)


def solve(p):
    with quiet_stdout():
        p.solve()


def check_one(hp, e, expect, where):
    errors = CAPTURE.of("ERROR")
    if not expect:
        check(e is None, "{} raised {}: {}", where, apiops.exc_name(e), e)
        check(not errors, "{} succeeded but logged {}", where, errors)
        return
    name = apiops.exc_name(e)
    check(name in expect, "{} gave {} ({}) instead of {}", where, name, e, sorted(expect))
    cls = getattr(hp.exceptions, name)
    check(type(e) is cls and e.args, "{}: {!r}", where, e)
    text = str(e)
    check(text in apiops.own_messages(cls), "{}: text {!r} is none of the messages of {}", where, text, name)
    check(text in errors, "{}: {!r} was raised but the log has {}", where, text, errors)


_ = os
