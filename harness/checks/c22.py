"""C22 Sorting and orienting items only reorder and turn them."""
from fractions import Fraction

import apiops
import build
import gen
import solving
from core import CAPTURE, check, load, sut

RULE = (
    "1-160 items (equal ones, squares, sizes up to 10^9, odd ids) and 1-5 sortings and orientations, also with the items or the rotation setting edited in between and the same operation again, known and unknown, rotation on, off "
    "and by default, on an instance with or without a past, directly or through hypersearch; non-trivial: something was reordered or turned"
)
ASSUMPTIONS = ["the code compares ratios of sides as floats: orders are checked within 1e-12, and ratios beyond the floats (10^308) are not generated"]
CONFIG = {
    "quick": {"budget_s": 9, "max_examples": 10**6},
    "thorough": {"budget_s": 200, "max_examples": 10**8},
}


def strategy(tier):
    return gen.cases(decode)


def decode(s):
    n = s.choice((1, 2, 3, 5, 8, 15, 40)) if s.below(8) else s.between(41, 160)
    top = s.choice((2, 5, 30, 30, 1000, 10**9))
    dims = [[s.between(1, top), s.between(1, top)] for _ in range(n)]
    if s.chance(12):
        # beyond what floats tell apart
        add = s.choice((2**31, 2**53, 2**53, 2**62, 10**20, 10**40))
        for d in dims:
            for k in range(2):
                if s.below(3):
                    d[k] += add
    if s.chance(3):
        for d in dims:
            if s.flag():
                d[1] = d[0]
    if s.chance(3):
        k = [s.choice(dims) for _ in range(3)]
        dims = [list(s.choice(k)) for _ in dims]
    items = [[i, w, l] for i, (w, l) in zip(gen.ids(s, n), dims)]
    ops = []
    for _ in range(gen.length(s, 1, 5, 40)):
        k = s.below(10)
        if k < 4:
            ops.append({"op": "sort", "by": [s.choice(solving.SORTS), s.flag()], "form": solving.form(s)})
        elif k < 7:
            ops.append({"op": "orient", "to": s.choice(("wide", "long")), "form": solving.form(s)})
        elif k == 7:
            ops.append({"op": "sort", "by": s.choice((None, ["Area", True], ["", False], ["volume", True], ["longest_side", False], [None, True]))})
        elif k == 8:
            ops.append({"op": "orient", "to": s.choice((None, "Wide", "", "tall", "w", "long "))})
        else:
            ops.append({"op": "default", "what": s.choice(("sort", "orient"))})
        if s.chance(3):
            # the items edited in between, and the same again
            ops += [{"op": "edit", "what": s.choice(("dim", "dim", "dim", "set", "add", "drop", "back", "rotation")), "at": s.below(200), "value": s.between(1, top)} for _ in range(s.choice((1, 1, 2)))]
            if s.flag():
                ops.append(next(x for x in reversed(ops) if x["op"] != "edit"))
    through = n <= 5 and top <= 30 and s.chance(4)
    if through:
        ops = [{"op": "hs", "by": s.choice((None, [s.choice(solving.SORTS), s.flag()])), "to": s.choice((None, "wide", "long", "nope")), "form": solving.form(s)}]
    return {"items": items, "rotation": s.choice((None, True, True, False)), "strip": s.chance(4), "ops": ops, "past": gen.past(s) if s.chance(4) else None}


def criterion(by, w, l):
    if by == "area":
        return Fraction(w * l)
    if by == "perimeter":
        return Fraction(2 * (w + l))
    return Fraction(max(w, l), min(w, l))


def check_sorted(before, after, by, where):
    check(sorted(before) == sorted(after), "{}: items {} became {}", where, before, after)
    if by is None:
        check(before == after, "{}: items {} became {}", where, before, after)
        return
    vals = [criterion(by[0], w, l) for _, w, l in after]
    if by[1]:
        vals.reverse()
    slack = Fraction(10**12 + 1, 10**12)  # ratios are compared as floats
    if by[0] != "longest_side_ratio":
        slack = 1
    for a, b in zip(vals, vals[1:]):
        check(a <= b * slack, "{}: not in order: {}", where, after)


def oriented(items, to, rotation):
    if rotation is False or to not in ("wide", "long"):
        return items
    return [[i, max(w, l), min(w, l)] if to == "wide" else [i, min(w, l), max(w, l)] for i, w, l in items]


def as_given(by, op):
    """The sorting as a pair: a tuple, now and then a list."""
    return None if by is None else list(by) if (op.get("form") or "").startswith("list by") else tuple(by)


def call(what, f, name, value, op):
    if "position" in (op.get("form") or ""):
        sut(what, f, value)
    else:
        sut(what, f, **{name: value})


def edit(p, op, rotation):
    ids = list(p.items)
    i, v = ids[op["at"] % len(ids)], op["value"]
    if op["what"] == "dim":
        p.items[i]["wl"[op["at"] % 2]] = v
    elif op["what"] == "set":
        p.items[i] = {"w": v, "l": op["at"] + 1}
    elif op["what"] == "add":
        p.items[build.unused([[x, 0, 0] for x in ids], f"more{op['at']}")] = {"w": v, "l": op["at"] + 1}
    elif op["what"] == "drop" and len(ids) > 1:
        del p.items[i]
    elif op["what"] == "back":
        # to the end
        if len(ids) > 1:
            d = dict(p.items[i])
            del p.items[i]
            p.items[i] = d
    elif op["what"] == "rotation":
        rotation = not op["at"] % 3 == 0
        p.settings = {"rotation": rotation}
    return rotation


def run_case(case, ctx):
    load()
    prob = {
        "kind": "hp", "containers": None if case["strip"] else [["c", 9, 9]], "strip": 9 if case["strip"] else None,
        "items": case["items"], "rotation": case["rotation"], "pp": None, "past": case.get("past"),
    }
    p = build.make(prob)
    rotation = case["rotation"]
    for op in case["ops"]:
        if op["op"] == "edit":
            rotation = edit(p, op, rotation)
            continue
        before = build.plain_items(p)
        where = str(op)
        CAPTURE.clear()
        if op["op"] == "sort" or (op["op"] == "default" and op["what"] == "sort"):
            by = op.get("by", ["area", True])
            if op["op"] == "default":
                sut("sort_items", p.sort_items)
            elif by is not None and by[0] not in solving.SORTS:
                e, _ = apiops.outcome(p.sort_items, sorting_by=tuple(by))
                check(apiops.exc_name(e) == "NotImplementedError", "{} gave {!r}", where, e)
                by = None
            else:
                call("sort_items", p.sort_items, "sorting_by", as_given(by, op), op)
            after = build.plain_items(p)
            check_sorted(before, after, by, where)
        elif op["op"] in ("orient", "default"):
            to = op.get("to", "wide")
            if op["op"] == "default":
                sut("orient_items", p.orient_items)
            else:
                call("orient_items", p.orient_items, "orientation", to, op)
            after = build.plain_items(p)
            want = oriented(before, to, rotation)
            wanted = to is not None and (rotation is False or to not in ("wide", "long"))
            check(bool(CAPTURE.of("WARNING")) == wanted, "{} with rotation {}: warnings {}", where, rotation, CAPTURE.of("WARNING"))
            check(after == want, "{} with rotation {}: {} became {}", where, rotation, before, after)
        else:
            solving.set_strategies(p, [gen.POOL])
            if "position" in (op.get("form") or ""):
                sut("hypersearch", p.hypersearch, op["to"], as_given(op["by"], op))
            else:
                sut("hypersearch", p.hypersearch, orientation=op["to"], sorting_by=as_given(op["by"], op))
            after = build.plain_items(p)
            turned = {i: (w, l) for i, w, l in oriented(before, op["to"], rotation)}
            check({i: (w, l) for i, w, l in after} == turned, "{}: items {} became {}", where, before, after)
            back = {i: (w, l) for i, w, l in before}
            check_sorted(before, [[i, *back[i]] for i, _, _ in after], op["by"], where)
            ctx.label("through hypersearch")
        ctx.mark(after != before)
        ctx.label(op["op"] + (" changed" if after != before else " unchanged"))
