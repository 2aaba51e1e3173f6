"""C04 Solving is a pure function of the problem, whatever happened before."""
import build
import figures
import gen
import solving
from core import check, sut

RULE = (
    "a problem and a history of 1-8 operations (solving with sequences, local search, hypersearch, logging, settings, strategy, "
    "sorting, orienting, strip heights, edits keeping the ids), then a final solve or search compared with a fresh instance in the same state "
    "and repeated; after every solving operation items, order, containers, settings and strategy are compared with before; "
    "non-trivial: the history holds a solving operation and the final solution at least two items"
)
CONFIG = {
    "quick": {"budget_s": 14, "max_examples": 10**6},
    "thorough": {"budget_s": 600, "max_examples": 10**8},
}


setup = figures.setup


def strategy(tier):
    return gen.cases(decode)


def decode(s):
    prob = gen.problem(s, mix=("micro", "tiny", "small", "small", "small", "mid"), max_items=s.choice((6, 10, 25)), max_containers=3)
    if s.chance(40):
        prob = gen.crowd(s)
    row = s.chance(70)
    if row:
        prob = gen.needle(s, 26)
    n = len(prob["items"])
    hp = prob["kind"] == "hp"
    search = hp and (n <= 8 or row)
    history = [history_op(s, prob, n, hp, search) for _ in range(gen.length(s, 1, 8, 40))]
    final = s.choice(("solve", "solve", "solve", "ls", "hs") if search else ("solve",))
    if final == "solve":
        final = solving.solve_op(s, n)
    elif final == "ls":
        final = solving.ls_op(s)
    else:
        final = solving.hs_op(s)
    if s.chance(3):
        # the same operation before, then one thing changed
        change = s.choice(("settings", "settings", "strategy", "edit", "edit", "height" if prob["strip"] else "edit", "sort" if hp else "edit"))
        history = history[: s.below(3)] + [dict(final)] + [history_op(s, prob, n, hp, search, (change,))] + history[7:]
    return {"prob": prob, "history": history, "final": final}


def history_op(s, prob, n, hp, search, only=None):
    kinds = ["solve", "solve", "solve", s.choice(("log", "log", "figure")), "settings", "strategy", "strategy", "read", "debug", "edit"]
    if hp:
        kinds += ["sort", "orient"]
    if search:
        kinds += ["ls", "hs"]
    if prob["strip"]:
        kinds += ["height", "reset"]
    elif s.chance(20):
        kinds = ["reset"]  # which does nothing in bin packing
    k = s.choice(only or kinds)
    if k in ("solve", "debug"):
        return {"op": "solve", "seq": gen.sequence(s, n), "debug": k == "debug"}
    if k == "ls":
        return solving.ls_op(s)
    if k == "hs":
        return solving.hs_op(s, workers=s.choice((1,) * 9 + (2,)))
    if k == "settings":
        return {"op": "settings", "rotation": s.choice((True, False, None))}
    if k == "strategy":
        kind = s.choice(("new", "new", "perm", "reverse", "cut"))
        return {"op": "strategy", "how": kind, "pp": gen.pp_strategy(s), "key": s.below(10)}
    if k == "edit":
        # the same ids, other contents or order
        kind = s.choice(("turn", "size", "order", "container", "container-turn"))
        return {"op": "edit", "how": kind, "key": s.below(50), "side": s.below(2), "value": s.between(1, 12)}
    if k == "sort":
        return {"op": "sort", "sorting": [s.choice(solving.SORTS), s.flag()]}
    if k == "orient":
        return {"op": "orient", "orientation": s.choice(("wide", "long"))}
    if k == "height":
        return {"op": "height", "value": s.between(1, 8 * prob["strip"])}
    return {"op": k}


def set_strategy(p, op):
    pp = tuple(op["pp"] if op["pp"] is not None else p.DEFAULT_POTENTIAL_POINTS_STRATEGY)
    now, k = tuple(p.potential_points_strategy), op.get("key", 0)
    how = op.get("how", "new")
    if how == "perm" and len(now) > 1:
        # the same classes in another order
        k = 1 + k % (len(now) - 1)
        pp = now[k:] + now[:k]
    elif how == "reverse":
        pp = now[::-1]
    elif how == "cut":
        pp = now[: max(1, k)]
    p.potential_points_strategy = pp


def edit(p, op, prob):
    k, how, value = op["key"], op["how"], op["value"]
    names = list(p.items)
    if how == "turn":
        d = p.items[names[k % len(names)]]
        d["w"], d["l"] = d["l"], d["w"]
    elif how == "size":
        p.items[names[k % len(names)]]["wl"[op["side"]]] = value
    elif how == "order":
        k %= len(names)
        p.items = {i: dict(p.items[i]) for i in names[k:] + names[:k]}
    elif not prob["strip"]:
        names = list(p.containers)
        d = p.containers[names[k % len(names)]]
        if how == "container":
            d["WL"[op["side"]]] = value
        else:
            d["W"], d["L"] = d["L"], d["W"]


def state(p):
    st = {
        "items": build.plain_items(p),
        "containers": build.plain_containers(p),
        "settings": dict(p.settings),
        "strategy": list(p.potential_points_strategy),
    }
    return st


def twin(p, prob):
    """A fresh instance in the present state of p."""
    new = dict(prob, items=build.plain_items(p), containers=prob["containers"] and build.plain_containers(p), height=None, min_height=None, pp=list(p.potential_points_strategy))
    q = build.make(new, settings=dict(p.settings), fresh=True)
    if prob["strip"]:
        q.container_height = p.container_height
        if p.container_min_height is not None:
            q.container_min_height = p.container_min_height
    return q


def run_final(p, prob, op):
    # sequences are ids of the original items, whatever the present order
    solving.run_op(p, prob, op)
    r = build.result(p)
    if hasattr(p, "best_strategy") and op["op"] == "hs":
        r["best"] = list(p.best_strategy) if p.best_strategy is not None else None
    if hasattr(p, "calculate_obj_value"):
        r["value"] = p.calculate_obj_value()
    r["height"] = p.container_height
    return r


def run_case(case, ctx):
    prob = case["prob"]
    final = case["final"]
    before = twin(build.make(prob), prob)
    first = run_final(before, prob, final)
    p = build.make(prob)
    solved = False
    for op in case["history"]:
        k = op["op"]
        if k in ("solve", "ls", "hs"):
            pre = state(p)
            if op.get("workers", 1) > 1:
                solving.set_workers(p, op["workers"])
                pre = state(p)
            solving.run_op(p, prob, op)
            post = state(p)
            if k == "hs":
                compare_hs(pre, post, op, p)
            else:
                for key in pre:
                    check(pre[key] == post[key], "{} changed the {}: {} -> {}", k, key, pre[key], post[key])
            if op.get("workers", 1) > 1:
                solving.set_workers(p, 1)
            solved = True
            ctx.label("history has " + k)
        elif k == "log":
            sut("log_solution", p.log_solution)
        elif k == "figure":
            figures.drawn(p)
        elif k == "settings":
            new = {} if op["rotation"] is None else {"rotation": op["rotation"]}
            p.settings = new
        elif k == "strategy":
            set_strategy(p, op)
        elif k == "edit":
            edit(p, op, prob)
        elif k == "read":
            sut("reading", lambda: (str(p.items), str(p.containers), p.items.deepcopy(), p.containers.deepcopy(), p.solution))
        elif k == "sort":
            p.sort_items(sorting_by=tuple(op["sorting"]))
        elif k == "orient":
            p.orient_items(orientation=op["orientation"])
        elif k == "height":
            p.container_height = max(op["value"], p.container_min_height or 1)
        elif k == "reset":
            p.reset_container_height()
    q = twin(p, prob)
    a = run_final(q, prob, final)
    # the used instance, from the same state (a search may lower the strip: the state is restored)
    height, minh = p.container_height, p.container_min_height
    items = build.plain_items(p)
    b = run_final(p, prob, final)
    check(a == b, "after the history {} gives {} but on a fresh instance {}", final["op"], b, a)
    if prob["strip"]:
        p.reset_container_height()
        p.container_height = height
        if minh is not None:
            p.container_min_height = minh
    if build.plain_items(p) != items:
        p.items = build.items_dict(items)
    c = run_final(p, prob, final)
    check(c == b, "repeated {} gives {} but before {}", final["op"], c, b)
    # a fresh instance of the original problem solves as it did before the history
    again = run_final(twin(build.make(prob), prob), prob, final)
    check(again == first, "a fresh instance gives {} but before the other instance's history {}", again, first)
    ctx.mark(solved and sum(len(x) for x in b["solution"].values()) >= 2)
    ctx.label("final " + final["op"])
    ctx.label("strip", bool(prob["strip"]))


def compare_hs(pre, post, op, p):
    for key in ("containers", "settings", "strategy"):
        check(pre[key] == post[key], "hypersearch changed the {}: {} -> {}", key, pre[key], post[key])
    a = {i: (w, l) for i, w, l in pre["items"]}
    b = {i: (w, l) for i, w, l in post["items"]}
    check(set(a) == set(b), "hypersearch changed the items' ids")
    rotated = op["orientation"] is not None and p.settings.get("rotation") is not False
    for i in a:
        ok = a[i] == b[i] or (rotated and a[i] == b[i][::-1])
        check(ok, "hypersearch changed item {!r} from {} to {}", i, a[i], b[i])
    if op["sorting"] is None:
        check([i[0] for i in pre["items"]] == [i[0] for i in post["items"]], "hypersearch reordered unsorted items")
