"""Minimises a failing case on its decoded form.

Works on every case: list elements are dropped and numbers lowered at places the modules
declare; for problems ("prob" with items, containers, sequences) references are kept valid.
"""
import copy


def _chunks(n):
    size = n // 2
    while size >= 1:
        for a in range(0, n, size):
            yield list(range(a, min(n, a + size)))
        if size == 1:
            break
        size //= 2


def _all_ops(case):
    for key in ("ops", "history", "final"):
        v = case.get(key)
        if isinstance(v, list):
            yield from (o for o in v if isinstance(o, dict))
        elif isinstance(v, dict):
            yield v


def _drop_items(case, prob, gone):
    n = len(prob["items"])
    keep = [k for k in range(n) if k not in gone]
    if not keep:
        return None
    new = {k: j for j, k in enumerate(keep)}
    prob["items"] = [prob["items"][k] for k in keep]
    holders = list(_all_ops(case)) + [case]
    for o in holders:
        if isinstance(o.get("seq"), list):
            o["seq"] = [new[k] for k in o["seq"] if k in new]
    return case


def _lower(v, lo=1):
    out = []
    for c in (lo, v // 2, v - 1):
        if lo <= c < v and c not in out:
            out.append(c)
    return out


def problem_candidates(case, get):
    """get(case) -> the problem inside a (copied) case."""
    prob = get(case)
    if prob is None:
        return
    for gone in _chunks(len(prob["items"])):
        c = copy.deepcopy(case)
        c = _drop_items(c, get(c), set(gone))
        if c:
            yield c
    if prob.get("containers"):
        for k in range(len(prob["containers"])):
            if len(prob["containers"]) > 1:
                c = copy.deepcopy(case)
                del get(c)["containers"][k]
                yield c
    for key in ("pp", "rotation", "height", "min_height"):
        if prob.get(key) is not None:
            c = copy.deepcopy(case)
            get(c)[key] = None
            yield c
    if prob.get("pp"):
        for k in range(len(prob["pp"])):
            c = copy.deepcopy(case)
            del get(c)["pp"][k]
            yield c
    plain = [f"i{k}" for k in range(len(prob["items"]))]
    if [i[0] for i in prob["items"]] != plain:
        c = copy.deepcopy(case)
        for i, name in zip(get(c)["items"], plain):
            i[0] = name
        yield c
    if prob.get("containers"):
        names = [f"c{k}" for k in range(len(prob["containers"]))]
        if [x[0] for x in prob["containers"]] != names:
            c = copy.deepcopy(case)
            for x, name in zip(get(c)["containers"], names):
                x[0] = name
            yield c
    for group in ("items", "containers"):
        for k, e in enumerate(prob.get(group) or []):
            for d in (1, 2):
                for v in _lower(e[d]):
                    c = copy.deepcopy(case)
                    get(c)[group][k][d] = v
                    yield c
    for key in ("strip", "height", "min_height"):
        if prob.get(key):
            for v in _lower(prob[key]):
                c = copy.deepcopy(case)
                get(c)[key] = v
                p2 = get(c)
                top = p2.get("height") or 10 * (p2.get("strip") or 0)
                if not p2.get("min_height") or p2["min_height"] <= top:
                    yield c


def candidates(case):
    if not isinstance(case, dict):
        return
    for key in ("ops", "history"):
        if isinstance(case.get(key), list) and len(case[key]) > 1:
            for gone in _chunks(len(case[key])):
                c = copy.deepcopy(case)
                c[key] = [o for k, o in enumerate(c[key]) if k not in gone]
                if c[key]:
                    yield c
    if isinstance(case.get("prob"), dict):
        yield from problem_candidates(case, lambda c: c["prob"])
    if isinstance(case.get("probs"), list):
        for j, x in enumerate(case["probs"]):
            if "prob" in x:
                yield from problem_candidates(case, lambda c, j=j: c["probs"][j]["prob"])
            else:
                yield from problem_candidates(case, lambda c, j=j: c["probs"][j])
    for o, path in _op_paths(case):
        if isinstance(o.get("strategies"), list) and len(o["strategies"]) > 1:
            for k in range(len(o["strategies"])):
                c = copy.deepcopy(case)
                del _at(c, path)["strategies"][k]
                yield c
        if isinstance(o.get("seq"), list):
            c = copy.deepcopy(case)
            _at(c, path)["seq"] = None
            yield c
            for k in range(len(o["seq"])):
                c = copy.deepcopy(case)
                del _at(c, path)["seq"][k]
                yield c
        for key in ("orientation", "sorting"):
            if o.get(key) is not None:
                c = copy.deepcopy(case)
                _at(c, path)[key] = None
                yield c
        if o.get("debug"):
            c = copy.deepcopy(case)
            _at(c, path)["debug"] = False
            yield c


def _op_paths(case):
    yield case, ()
    for key in ("ops", "history"):
        for k, o in enumerate(case.get(key) or []):
            if isinstance(o, dict):
                yield o, (key, k)


def _at(case, path):
    for p in path:
        case = case[p]
    return case


def _quiet(source):
    """A case of unexpected form is reported as it is."""
    try:
        yield from source
    except Exception:  # noqa
        return


def minimise(case, fails, extra=None, deadline=lambda: False):
    """Greedy descent: fails(case) -> message or None. Returns (case, message)."""
    msg = fails(case)
    if not msg:
        return None
    improved = True
    while improved and not deadline():
        improved = False
        sources = [candidates(case)] + ([extra(case)] if extra else [])
        for source in map(_quiet, sources):
            for cand in source:
                if deadline():
                    break
                try:
                    m = fails(cand)
                except Exception:  # noqa  an invalid candidate says nothing
                    m = None
                if m:
                    case, msg, improved = cand, m, True
                    break
            if improved:
                break
    return case, msg
