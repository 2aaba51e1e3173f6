"""Cases that solve: the operation, its parameters, and running it on the real code."""
import contextlib
import multiprocessing

import build
import gen
from core import sut

SORTS = ("area", "perimeter", "longest_side_ratio")


def solve_op(s, n):
    return {"op": "solve", "seq": gen.sequence(s, n), "debug": s.chance(12), "form": form(s)}


def ls_op(s):
    return {"op": "ls", "throttle": s.flag(), "debug": s.chance(12)}


def form(s):
    """How the arguments are given: sequences as lists or tuples, by name or by position."""
    return s.choice(("list", "list", "tuple", "list by position", "tuple by position"))


def formed(names, how):
    return names if names is None or not (how or "").startswith("tuple") else tuple(names)


def hs_op(s, workers=1, max_strategies=3, style="full"):
    return {
        "op": "hs",
        "workers": workers,
        "strategies": gen.strategy_lists(s, max_n=max_strategies, style=style),
        "orientation": s.choice(("wide", "long", None, None)),
        "sorting": s.choice((None, [s.choice(SORTS), s.flag()])),
        "throttle": s.flag(),
        "form": form(s),
    }


SEARCH_MIX = ("micro", "tiny", "tiny", "small", "small", "small", "mid")
OPS = ("solve",) * 9 + ("ls", "ls", "hs")


def solved(s, tier="quick", ops=OPS, strip=None, max_ops=1, rotation=None, mp_one_in=40, thousands=800):
    """A problem and one or more solving operations on it."""
    op = s.choice(ops)
    if not strip and rotation is None and thousands and s.chance(thousands):
        return {"prob": gen.thousands(s), "ops": [{"op": "solve", "seq": None}]}
    if s.chance(mp_one_in):
        op = "mp"
    if op == "solve":
        if not strip and s.chance(20):
            prob = gen.stretched(s, rotation)
        else:
            prob = gen.problem(s, strip=strip, rotation=rotation)
    else:
        limit = {"ls": 11, "hs": 7, "mp": 7}[op] + (4 if tier == "thorough" else 0)
        prob = gen.problem(
            s, mix=SEARCH_MIX, max_items=limit, kinds=("hp",), strip=strip, rotation=rotation, max_containers=4
        )
        if not strip and s.chance(40):
            prob = gen.needle(s, 40)
            if rotation is not None:
                prob["rotation"] = rotation
    n = len(prob["items"])
    gen.more_settings(s, prob)
    large = any(c[1] * c[2] > 40000 for c in prob["containers"] or ())
    out = []
    for k in range(s.between(1, max_ops)):
        if k:
            op = s.choice(ops) if prob["kind"] == "hp" and n <= 12 and not large else "solve"
        if op == "solve":
            out.append(solve_op(s, n))
        elif op == "ls":
            out.append(ls_op(s))
        elif op == "hs":
            out.append(hs_op(s))
        else:
            out.append(hs_op(s, workers=s.between(2, 4), max_strategies=4))
    return {"prob": prob, "ops": out}


def set_strategies(p, strategies):
    lst = [tuple(x) for x in strategies]
    p.get_strategies = lambda *a, **k: list(lst)


def set_workers(p, workers):
    new = dict(p.settings)
    new["workers_num"] = workers
    p.settings = new


def run_op(p, prob, op):
    """Runs one solving operation. Returns the ids allowed in the solution (None: all)."""
    if op["op"] == "solve":
        names = build.seq_ids(prob, op["seq"])
        given, debug = formed(names, op.get("form")), op.get("debug", False)
        if "position" in (op.get("form") or ""):
            sut("solve", p.solve, given, debug)
        else:
            sut("solve", p.solve, sequence=given, debug=debug)
        return None if names is None else set(names)
    if op["op"] == "ls":
        sut("local_search", p.local_search, throttle=op["throttle"], debug=op.get("debug", False))
        return None
    hypersearch(p, op)
    return None


def hypersearch(p, op):
    set_strategies(p, op["strategies"])
    if op["workers"] != (p.settings.get("workers_num") or 1):
        set_workers(p, op["workers"])
    sorting = op["sorting"] or None
    if sorting is not None and not (op.get("form") or "").startswith("list by"):
        sorting = tuple(sorting)
    if "position" in (op.get("form") or ""):
        sut("hypersearch", p.hypersearch, op["orientation"], sorting, throttle=op["throttle"])
    else:
        sut("hypersearch", p.hypersearch, orientation=op["orientation"], sorting_by=sorting, throttle=op["throttle"])


def conts_in_force(prob, height_before):
    """[[id, W, L]] with the strip height in force as L."""
    if prob["strip"]:
        return [["strip-pack-container", prob["strip"], height_before]]
    return prob["containers"]


def op_label(op):
    return "op " + op["op"] + (" mp" if op.get("workers", 1) > 1 else "")


def start_method(s, one_in):
    """How the workers are started: forked, now and then as on systems without fork."""
    return s.choice(("spawn", "spawn", "forkserver")) if s.chance(one_in) else "fork"


@contextlib.contextmanager
def started_by(method):
    old = multiprocessing.get_start_method()
    if method and method != old:
        multiprocessing.set_start_method(method, force=True)
    try:
        yield
    finally:
        if method and method != old:
            multiprocessing.set_start_method(old, force=True)
