"""From case data to live instances, and back to comparable data."""
from core import load, sut


def containers_dict(conts):
    return {i: _dims("W", W, "L", L) for i, W, L in conts}


def items_dict(items):
    return {i: _dims("w", w, "l", l) for i, w, l in items}


def _dims(a, x, b, y):
    """The dimensions, some with the length given first."""
    return {b: y, a: x} if (3 * x + 5 * y) % 7 < 2 else {a: x, b: y}


def settings_of(prob, **extra):
    s = dict(extra)
    if prob.get("rotation") is not None:
        s["rotation"] = prob["rotation"]
    # (and ones without a part in what is done)
    for key, value in (prob.get("settings") or {}).items():
        s.setdefault(key, value)
    return s


def make(prob, settings=None, cls=None, apply=True, fresh=False, **extra):
    """The instance of a problem: a fresh one, or (where the problem has a past) one that was another problem before."""
    hp = load()
    if cls is None:
        cls = hp.PointGenPack if prob.get("kind") == "pg" else hp.HyperPack
    if settings is None:
        settings = settings_of(prob, **extra)
    if prob.get("past") and not fresh:
        p = with_past(cls, prob, settings)
    else:
        p = sut("instantiation", cls, **arguments(prob, prob["items"], prob.get("containers"), settings))
    if apply:
        apply_state(p, prob)
    return p


def arguments(prob, items, conts, settings):
    kw = {"items": items_dict(items), "settings": settings}
    if prob.get("strip"):
        kw["strip_pack_width"] = prob["strip"]
    else:
        kw["containers"] = containers_dict(conts)
    return kw


def with_past(cls, prob, settings):
    """The same problem, reached from another one by operations on it."""
    past = prob["past"]
    first = {"items": prob["items"], "containers": prob.get("containers")}
    for what in ("items", "containers"):
        target = first[what]
        if target is None:
            continue
        n = past["alter"]
        start = [[i, a + 1, b] if n and k % n == 0 else [i, a, b] for k, (i, a, b) in enumerate(target)]
        if past["gap"] and len(start) > 1:
            start.pop()  # added later
        if what == "items" or past["junk_containers"]:
            for k, (at, a, b) in enumerate(past["junk"]):
                start.insert(at % (len(start) + 1), [unused(target, f"junk{k}"), a, b])
        first[what] = start
    p = sut("instantiation", cls, **arguments(prob, first["items"], first["containers"], {"rotation": past["rotation"]}))
    for op in past["ops"]:
        if op == "solve":
            sut("solve", p.solve)
        elif op == "log":
            sut("log_solution", p.log_solution)
        elif op == "search" and hasattr(p, "local_search") and len(first["items"]) <= 8:
            sut("local_search", p.local_search)
        elif op == "hyper" and hasattr(p, "hypersearch") and len(first["items"]) <= 6:
            fixed = tuple(p.DEFAULT_POTENTIAL_POINTS_STRATEGY)
            p.get_strategies = lambda *a, **k: [fixed[::-1], ("B", "A")]
            sut("hypersearch", p.hypersearch, orientation=None, sorting_by=None)
            del p.get_strategies
        elif op == "strategy":
            p.potential_points_strategy = tuple(p.potential_points_strategy)[::-1][:3]
        elif op == "print":
            str(p.items), str(p.containers)
    for what in ("containers", "items"):
        target = prob.get(what)
        if target is None:
            continue
        make_dict = items_dict if what == "items" else containers_dict
        if past["assign"]:
            setattr(p, what, make_dict(target))
            continue
        structure = getattr(p, what)
        keep = {i for i, _, _ in target}
        have = {i: (a, b) for i, a, b in first[what]}
        for i, dims in make_dict(target).items():
            if i not in have:
                structure[i] = dims
            elif past["whole"]:
                structure[i] = dims
            else:
                for key, value in dims.items():
                    if structure[i][key] != value:
                        structure[i][key] = value
        for i in have:
            if i not in keep:
                del structure[i]
    if not past["assign"]:
        # the last edit of all: no solution is left
        i, w, l = prob["items"][-1]
        p.items[i] = {"w": w, "l": l}
    p.settings = settings
    if prob.get("strip"):
        p.reset_container_height()
    p.potential_points_strategy = tuple(p.DEFAULT_POTENTIAL_POINTS_STRATEGY)
    return p


def unused(entries, name):
    while any(i == name for i, _, _ in entries):
        name += "~"
    return name


def apply_state(p, prob):
    if prob.get("height"):
        p.container_height = prob["height"]
    if prob.get("min_height"):
        p.container_min_height = prob["min_height"]
    if prob.get("pp") is not None:
        p.potential_points_strategy = tuple(prob["pp"])


def rotation_on(prob):
    return prob.get("rotation") is not False


def seq_ids(prob, seq):
    return None if seq is None else [prob["items"][k][0] for k in seq]


def plain_items(p):
    return [[i, p.items[i]["w"], p.items[i]["l"]] for i in p.items]


def plain_containers(p):
    return [[c, p.containers[c]["W"], p.containers[c]["L"]] for c in p.containers]


def plain_solution(p):
    return {c: {i: list(v) for i, v in s.items()} for c, s in p.solution.items()}


def snapshot(p):
    """Everything observable a solving operation must not change."""
    return {
        "items": plain_items(p),
        "containers": plain_containers(p),
        "settings": repr(p.settings),
        "strategy": list(p.potential_points_strategy),
    }


def result(p):
    return {"solution": plain_solution(p), "values": dict(p.obj_val_per_container)}


def ordered(sol):
    """The solution with its order: containers, and items in placement order."""
    return [[c, [[i, list(v)] for i, v in s.items()]] for c, s in sol.items()]
