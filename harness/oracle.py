"""Oracles that look only at the problem data and at the reported result."""
from fractions import Fraction

from core import check, fail

TOL = 1e-9


def is_int(x):
    return isinstance(x, int) and not isinstance(x, bool)


def geometry(sol, conts, heights=None, where=""):
    """C01. conts: [[id, W, L]]; for strip packing L is the height in force."""
    dims = {c: (W, L) for c, W, L in conts}
    for c, placed in sol.items():
        check(c in dims, "{}unknown container {!r} in the solution", where, c)
        W, L = dims[c]
        rects = []
        for i, v in placed.items():
            check(len(v) == 4 and all(is_int(x) for x in v), "{}placement of {!r} is not 4 integers: {}", where, i, v)
            x, y, w, l = v
            check(w > 0 and l > 0, "{}item {!r} has no size: {}", where, i, v)
            check(
                x >= 0 and y >= 0 and x + w <= W and y + l <= L,
                "{}item {!r} at {} leaves its container {!r} of {}x{}", where, i, v, c, W, L,
            )
            rects.append((x, y, x + w, y + l, i))
        rects.sort()
        for a in range(len(rects)):
            xa, ya, xa2, ya2, ia = rects[a]
            for b in range(a + 1, len(rects)):
                xb, yb, xb2, yb2, ib = rects[b]
                if xb >= xa2:
                    break
                if ya < yb2 and yb < ya2:
                    fail(f"{where}items {ia!r} and {ib!r} overlap in container {c!r}: {rects[a][:4]} {rects[b][:4]}")


def conservation(sol, conts, items, rotation, allowed=None, where=""):
    """C02. items: [[id, w, l]]; allowed: ids of the sequence when one was given."""
    check(
        list(sol) and set(sol) == {c[0] for c in conts} and len(sol) == len(conts),
        "{}containers of the solution {} are not those of the problem {}", where, list(sol), [c[0] for c in conts],
    )
    dims = {i: (w, l) for i, w, l in items}
    seen = {}
    for c, placed in sol.items():
        for i, v in placed.items():
            check(i in dims, "{}packed id {!r} is no item", where, i)
            check(allowed is None or i in allowed, "{}packed id {!r} is not in the sequence", where, i)
            check(i not in seen, "{}item {!r} packed in {!r} and {!r}", where, i, seen.get(i), c)
            seen[i] = c
            w, l = dims[i]
            ok = (v[2], v[3]) == (w, l) or (rotation and (v[2], v[3]) == (l, w))
            check(ok, "{}item {!r} of {}x{} packed as {}x{} (rotation {})", where, i, w, l, v[2], v[3], rotation)
    return seen


def height_of(placed):
    return max([v[1] + v[3] for v in placed.values()] or [0])


def utilisations(sol, conts, strip):
    """Exact utilisation of each container."""
    out = {}
    for c, W, L in conts:
        area = sum(v[2] * v[3] for v in sol[c].values())
        h = height_of(sol[c]) if strip else L
        out[c] = Fraction(area, W * h) if area else Fraction(0)
    return out


def overall(utils):
    vals = list(utils.values())
    if len(vals) == 1:
        return vals[0]
    return sum(vals[:-1], Fraction(0)) + Fraction(7, 10) * vals[-1]


def close(x, exact):
    return isinstance(x, (int, float)) and abs(float(x) - float(exact)) <= TOL * max(1.0, abs(float(exact)))


def values(p, sol, conts, strip, where=""):
    """C03."""
    utils = utilisations(sol, conts, strip)
    got = p.obj_val_per_container
    check(set(got) == set(utils), "{}values for {} but containers {}", where, list(got), list(utils))
    for c, u in utils.items():
        check(close(got[c], u), "{}container {!r}: value {} but utilisation {} = {}", where, c, got[c], u, float(u))
        check(-TOL <= got[c] <= 1 + TOL, "{}container {!r}: value {} not in [0, 1]", where, c, got[c])
    if hasattr(p, "calculate_obj_value"):
        v = p.calculate_obj_value()
        check(close(v, overall(utils)), "{}objective value {} but {} expected", where, v, float(overall(utils)))
    return utils
