"""Operations of every kind on one problem, valid and faulty, for checks that look at what is around the problem."""
import copy
import importlib
import os
import pickle
import shutil
import tempfile

import apiops
import clock
import figures
import gen
import solving

KINDS = ("solve", "solve", "ls", "hs", "structure", "structure", "structure", "height", "settings", "strategy", "sort", "orient", "log", "read", "copy", "figure", "export", "fail", "validate", "new", "alone", "interrupt")
HOME = None


def setup():
    """A scratch folder as working, home and temporary directory."""
    global HOME
    figures.setup()
    # what is imported on first use changes filters of warnings and the like
    for name in ("plotly.io", "plotly.tools", "plotly.graph_objects", "kaleido"):
        try:
            module = importlib.import_module(name)
            if name == "plotly.io":
                module.kaleido.scope  # noqa
        except Exception:  # noqa
            pass
    clock.install()
    HOME = tempfile.mkdtemp(prefix="hpdoing_")
    for d in ("cwd", "home", "tmp", "out"):
        os.mkdir(f"{HOME}/{d}")
    os.chdir(f"{HOME}/cwd")
    os.environ["HOME"], os.environ["TMPDIR"] = f"{HOME}/home", f"{HOME}/tmp"
    tempfile.tempdir = f"{HOME}/tmp"


def teardown():
    os.chdir("/")
    if HOME:
        shutil.rmtree(HOME, ignore_errors=True)


def small(op):
    """Sizes that can be solved."""

    def walk(x):
        if isinstance(x, list):
            return [walk(v) for v in x]
        if isinstance(x, dict) and "v" in x:
            return dict(x, v=walk(x["v"]))
        if isinstance(x, int) and not isinstance(x, bool) and x > 40:
            return 1 + x % 40
        return x

    for key in ("value", "pairs"):
        if key in op:
            op[key] = walk(op[key])
    return op


def problem(s):
    return gen.problem(s, mix=("micro", "tiny", "small"), max_items=6, max_containers=3, kinds=("hp", "hp", "hp", "pg"))


def late(s):
    """Seconds that pass with every candidate."""
    return s.choice((2, 25, 70, 10**6)) if s.chance(4) else 0


def operation(s, prob, kinds=KINDS):
    n = len(prob["items"])
    hp = prob["kind"] == "hp"
    k = s.choice(kinds)
    if k in ("ls", "hs", "sort", "orient") and not hp:
        k = "solve"
    if k == "height" and not prob["strip"]:
        k = "structure"
    if k == "solve":
        return {"op": k, "seq": gen.sequence(s, n), "debug": s.chance(3)}
    if k == "ls":
        return {"op": k, "throttle": s.flag(), "late": late(s), "debug": s.chance(4), "limit": s.choice((None, None, 1, 3, 8))}
    if k == "hs":
        op = solving.hs_op(s, workers=s.choice((1, 1, 1, 2, 3)), max_strategies=4)
        op["force"] = s.choice(("all", 0, 1)) if s.chance(6) else None
        op["pool"] = s.chance(6)
        op["late"] = late(s)
        op["exhaustive"] = n <= 4 and s.chance(10)
        return op
    if k == "structure":
        return small(apiops.structure_op(s))
    if k == "alone":
        return dict(small(apiops.structure_op(s)), alone=True)
    if k == "height":
        return apiops.height_op(s, prob["strip"])
    if k == "settings":
        return {"op": k, "value": apiops.settings_value(s)}
    if k == "strategy":
        return {"op": k, "value": apiops.strategy_value(s)}
    if k == "sort":
        return {"op": k, "sorting": s.choice((None, ["nope", True], [s.choice(solving.SORTS), s.flag()], [s.choice(solving.SORTS), s.flag()]))}
    if k == "orient":
        return {"op": k, "orientation": s.choice(("wide", "long", "wide", "long", None, "nope"))}
    if k == "export":
        return {"op": k, "name": s.choice((None, "a", "fig-1")), "also": s.flag(), "format": s.choice((None, None, "png", "svg"))}
    if k == "new":
        return {"op": k, "items": apiops.bad_struct(s, "items") if s.flag() else apiops.good_struct(s, "items")}
    if k == "interrupt":
        return {"op": k, "with": s.choice(("KeyboardInterrupt", "MemoryError", "ValueError")), "search": hp and s.flag()}
    return {"op": k}


class Failing(figures.Light):
    def write_html(self, *a, **k):
        raise OSError("disk full")


class Armed(tuple):
    """A strategy during whose use something happens: an interruption, or much time passes."""

    exc = seconds = None

    def __iter__(self):
        if self.exc is not None:
            raise self.exc
        if self.seconds:
            clock.CLOCK.advance(self.seconds)
        return super().__iter__()


def armed(values, exc=None, seconds=None):
    x = Armed(values)
    x.exc, x.seconds = exc, seconds
    return x


def run(p, prob, op):
    """Runs it; the exception it ended with is returned."""
    k = op["op"]
    if "on" in op:
        target = p
        if op.get("alone"):
            if op["op"] == "del_attr":
                return None
            target = apiops.Alone(p.items.deepcopy(), p.containers.deepcopy())
        return apiops.outcome(apiops.run_structure_op, target, op)[0]
    if k in ("height", "min_height", "reset", "del_height", "del_min_height"):
        if isinstance(op.get("value"), int) and op["value"] > 400:
            return None
        return apiops.outcome(apiops.run_height_op, p, op)[0]
    if k == "solve":
        names = list(p.items)
        seq = None if op["seq"] is None else [names[j] for j in op["seq"] if j < len(names)]
        return apiops.outcome(p.solve, sequence=seq, debug=op["debug"])[0]
    if k == "ls":
        old = p.potential_points_strategy
        if op["late"]:
            p.potential_points_strategy = armed(old, seconds=op["late"])
        if op.get("limit"):
            p.MAX_NEIGHBORS_THROTTLE = op["limit"]
        try:
            return apiops.outcome(p.local_search, throttle=op["throttle"], debug=op.get("debug", False))[0]
        finally:
            p.__dict__.pop("MAX_NEIGHBORS_THROTTLE", None)
            if op["late"]:
                p.potential_points_strategy = old
    if k == "hs":
        return hypersearch(p, op)
    if k == "settings":
        return apiops.outcome(setattr, p, "settings", apiops.val(op["value"]))[0]
    if k == "strategy":
        return apiops.outcome(setattr, p, "potential_points_strategy", apiops.val(op["value"]))[0]
    if k == "sort":
        return apiops.outcome(p.sort_items, sorting_by=tuple(op["sorting"]) if op["sorting"] else None)[0]
    if k == "orient":
        return apiops.outcome(p.orient_items, orientation=op["orientation"])[0]
    if k == "log":
        return apiops.outcome(p.log_solution)[0]
    if k == "read":
        return apiops.outcome(lambda: (str(p.items), str(p.containers), repr(p.items), list(p.items.values()), p.items == p.items, p.items.get("nope"), p.container_height))[0]
    if k == "copy":
        p.__dict__.pop("get_strategies", None)
        return apiops.outcome(lambda: (p.items.deepcopy(), dict(p.containers), copy.deepcopy(p), pickle.loads(pickle.dumps(p))))[0]
    if k == "validate":
        return apiops.outcome(p.validate_settings)[0]
    if k == "figure":
        return figures.drawn(p) and None
    if k in ("export", "fail"):
        return export(p, op)
    if k == "new":
        return apiops.outcome(type(p), items=apiops.val(op["items"]), containers={"c": {"W": 5, "L": 5}})[0]
    if k == "interrupt":
        return interrupted(p, op)
    raise ValueError(k)


def hypersearch(p, op):
    p.__dict__.pop("get_strategies", None)
    old = dict(p.settings) if isinstance(p.settings, dict) else {}
    if apiops.settings_fault(old):
        old = {}
    p.settings = dict(old, workers_num=op["workers"])
    if not op["pool"] and not op.get("exhaustive"):
        lst = [armed(x, seconds=op["late"]) for x in op["strategies"]]
        p.get_strategies = lambda *a, **k: list(lst)
    return apiops.outcome(
        p.hypersearch, op["orientation"], tuple(op["sorting"]) if op["sorting"] else None, throttle=op["throttle"],
        _exhaustive=op.get("exhaustive", False), _force_raise_error_index=op["force"],
    )[0]


def export(p, op):
    import plotly.graph_objects as go

    old, figure = p.settings, go.Figure
    ex = {"type": "html", "path": f"{HOME}/out"}
    if op.get("format"):
        ex.update(type="image", format=op["format"])
    if op.get("name"):
        ex["file_name"] = op["name"]
    e, _ = apiops.outcome(setattr, p, "settings", {"figure": {"export": ex, "show": bool(op.get("also"))}})
    if e is not None:
        return e
    go.Figure = Failing if op["op"] == "fail" else figures.Shown
    figures.Shown.DRAWN.clear()
    try:
        return apiops.outcome(p.create_figure)[0]
    finally:
        go.Figure = figure
        apiops.outcome(setattr, p, "settings", old)


def interrupted(p, op):
    exc = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "ValueError": ValueError}[op["with"]]
    old = p.potential_points_strategy
    own = armed(old)
    p.potential_points_strategy = own
    own.exc = exc("interrupted")
    try:
        p.local_search() if op["search"] else p.solve()
    except BaseException as e:  # noqa
        if not isinstance(e, exc):
            raise
        return e.with_traceback(None)
    finally:
        own.exc = None
        p.potential_points_strategy = old
    return None
