"""C36 Repeating operations accumulates nothing."""
import atexit
import functools
import gc
import sys
import threading
import types
import weakref

import build
import doing
import gen
from core import CAPTURE, check, load

RULE = (
    "a problem and a round of 1-8 operations of every kind, valid and faulty (as in C35), run five times from the same state, on one "
    "problem or on a new one each time; counted after the rounds: entries reachable from the problem and from the library's modules, "
    "classes and functions (also of caches), objects of the interpreter, exit handlers, threads; none may grow in every round (ten rounds "
    "more decide), and problems no longer referenced must be gone; non-trivial: at least two kinds of operations, one of them solving"
)
ASSUMPTIONS = ["growth that stops (a bounded cache) is no violation; memory outside Python objects is not looked at"]
CONFIG = {
    "quick": {"budget_s": 12, "max_examples": 10**6},
    "thorough": {"budget_s": 300, "max_examples": 10**8},
}
HANG_S = 100
READY = [False]


def setup(tier, index):
    load()
    doing.setup()
    READY[0] = True
    gc.collect()
    gc.freeze()


teardown = doing.teardown


def strategy(tier):
    return gen.cases(decode)


def decode(s):
    prob = doing.problem(s)
    prob.pop("past", None)
    return {"prob": prob, "ops": [doing.operation(s, prob) for _ in range(s.between(1, 8))], "new": s.chance(3)}


def entries(*roots):
    """The number of entries held by everything reachable, within the library."""
    seen, todo, n = {}, list(roots), 0
    for name, mod in list(sys.modules.items()):
        if name == "hyperpack" or (name.startswith("hyperpack.") and "benchmark" not in name):
            todo.append(vars(mod))
    while todo:
        x = todo.pop()
        if id(x) in seen or x is None or isinstance(x, (str, bytes, int, float, types.ModuleType)):
            continue
        seen[id(x)] = x  # kept, so that no other object gets its id
        if isinstance(x, (dict, types.MappingProxyType)):
            n += len(x)
            todo.extend(x.keys())
            todo.extend(x.values())
            continue
        if isinstance(x, (list, tuple, set, frozenset)):
            n += len(x)
            todo.extend(x)
            continue
        if isinstance(x, functools._lru_cache_wrapper):
            n += x.cache_info().currsize
            todo.append(x.__wrapped__)
            continue
        where = getattr(x, "__module__", None)
        if not isinstance(where, str) or not (where == "hyperpack" or where.startswith("hyperpack.")):
            try:
                n += len(x)  # deques, weak dictionaries, arrays ...
            except Exception:  # noqa
                pass
            continue
        if isinstance(x, types.FunctionType):
            todo += [x.__defaults__, x.__kwdefaults__, x.__dict__]
            for c in x.__closure__ or ():
                try:
                    todo.append(c.cell_contents)
                except ValueError:
                    pass
            continue
        if isinstance(x, (staticmethod, classmethod)):
            todo.append(x.__func__)
            continue
        if isinstance(x, property):
            todo += [x.fget, x.fset, x.fdel]
            continue
        d = getattr(x, "__dict__", None)
        if d is not None:
            todo.append(d)
        if isinstance(x, type):
            todo += [b for b in x.__mro__[1:] if b is not object]
        else:
            todo.append(type(x))
    return n


def counts(*roots):
    CAPTURE.clear()
    gc.collect()
    return {
        "entries in the problem and the library" if roots else "entries in the library": entries(*roots),
        "objects of the interpreter": len(gc.get_objects()),
        "exit handlers": atexit._ncallbacks(),
        "threads": threading.active_count(),
    }


def restore(p, prob):
    """The state every round starts from."""
    p.__dict__.pop("get_strategies", None)
    p.settings = build.settings_of(prob)
    p.items = build.items_dict(prob["items"])
    if prob["strip"]:
        p.reset_container_height()
    else:
        p.containers = build.containers_dict(prob["containers"])
    p.potential_points_strategy = p.DEFAULT_POTENTIAL_POINTS_STRATEGY
    build.apply_state(p, prob)


def run_case(case, ctx):
    load()
    if not READY[0]:
        setup("quick", 0)
    prob = case["prob"]
    p = None if case["new"] else build.make(prob)

    def round_():
        q = build.make(prob) if case["new"] else p
        if not case["new"]:
            restore(q, prob)
        for op in case["ops"]:
            doing.run(q, prob, op)
        doing.figures.Shown.DRAWN.clear()
        return weakref.ref(q)

    found = []

    def measured():
        ref = round_()
        found.append(counts(*([] if case["new"] else [p])))
        if case["new"]:
            check(ref() is None, "a problem is kept alive although nothing refers to it any more")

    round_()
    for _ in range(4):
        measured()
    growing = [k for k in found[0] if all(a[k] < b[k] for a, b in zip(found, found[1:]))]
    if growing:
        for _ in range(10):
            measured()
        growing = [k for k in found[0] if all(a[k] < b[k] for a, b in zip(found, found[1:]))]
        for k in growing:
            check(False, "the {} grow with every round: {}", k, [f[k] for f in found])
    if p is not None:
        ref = weakref.ref(p)
        del p
        round_ = measured = None  # noqa: they hold the problem
        gc.collect()
        check(ref() is None, "the problem is kept alive although nothing refers to it any more")
    kinds = {"structure" if "on" in op else op["op"] for op in case["ops"]}
    ctx.mark(len(kinds) > 1 and kinds & {"solve", "ls", "hs"})
    ctx.label("a new problem each time" if case["new"] else "one problem")
    for k in kinds:
        ctx.label("operation " + k)
