"""C07 Containers are filled in order, each from what the earlier ones left."""
import build
import gen
import solving
from core import check, sut

RULE = (
    "problems of 1-8 containers; solve is compared with solving the containers one by one with the leftovers, with every "
    "shorter list of containers, with renamed ids, and with items that fit nowhere inserted or removed; first placement "
    "and empty containers are checked directly; non-trivial: at least two containers hold items, or an item is left over"
)
CONFIG = {
    "quick": {"budget_s": 14, "max_examples": 10**6},
    "thorough": {"budget_s": 600, "max_examples": 10**8},
}


def strategy(tier):
    return gen.cases(decode)


def decode(s):
    prob = gen.problem(
        s,
        mix=("micro", "tiny", "tiny") + ("small",) * 6 + ("mid",) * 3 + ("wide",),
        strip=s.chance(10),
        max_containers=8,
        min_containers=s.choice((1, 2, 2, 3)),
    )
    n = len(prob["items"])
    return {
        "prob": prob,
        "seq": gen.sequence(s, n),
        "rename": s.choice(("reverse", "swap-kind", "odd", "numbers")),
        "rename_containers": s.choice(("reverse", "swap-kind", "odd", "numbers", "numbers")),
        "misfits": [[s.below(n + 1), s.between(1, 3), s.between(1, 3)] for _ in range(s.below(4))],
    }


def solve(prob, items, conts, kind=None):
    q = dict(prob, items=items)
    if not prob["strip"]:
        q["containers"] = conts
    p = build.make(q, fresh=True)
    sut("solve", p.solve)
    return {c: dict(x) for c, x in build.ordered(p.solution)}, dict(p.obj_val_per_container), p


def fits(w, l, W, L, rot):
    return (w <= W and l <= L) or (rot and l <= W and w <= L)


def run_case(case, ctx):
    prob = case["prob"]
    p = build.make(prob)
    names = build.seq_ids(prob, case["seq"])
    sut("solve", p.solve, sequence=names)
    got = {c: dict(x) for c, x in build.ordered(p.solution)}
    values = dict(p.obj_val_per_container)
    by_id = {i[0]: i for i in prob["items"]}
    items = prob["items"] if names is None else [by_id[i] for i in names]
    if not items:
        check(not any(got.values()), "items packed from an empty sequence: {}", got)
        return
    rot = build.rotation_on(prob)
    conts = solving.conts_in_force(prob, p.container_height)

    # a sequence is the same as items in that order
    if names is not None:
        other, vals, _ = solve(prob, items, prob["containers"])
        check(other == got, "sequence {} gives {} but items in that order {}", names, got, other)
        check(vals == values, "sequence: values {} but items in that order {}", values, vals)

    # one by one
    rest = items
    for c, W, L in conts:
        if rest:
            alone, vals, _ = solve(prob, rest, [[c, W, L]])
            check(alone[c] == got[c], "container {!r} holds {} but alone with the leftovers {}", c, got[c], alone[c])
            check(vals[c] == values[c], "container {!r}: value {} but alone {}", c, values[c], vals[c])
            first = next((i for i in rest if fits(i[1], i[2], W, L, rot)), None)
            if first is None:
                check(not got[c], "container {!r} holds {} but no item fits", c, got[c])
                check(values[c] == 0, "empty container {!r} has value {}", c, values[c])
            else:
                check(bool(got[c]), "container {!r} is empty although item {!r} fits", c, first[0])
                check(got[c].get(first[0], [None])[:2] == [0, 0], "first fitting item {} not at the origin: {}", first, got[c])
        else:
            check(not got[c], "container {!r} holds items that were used up", c)
            check(values[c] == 0, "empty container {!r} has value {}", c, values[c])
        rest = [i for i in rest if i[0] not in got[c]]

    # a container at the end never changes what the earlier ones hold
    for k in range(1, len(conts)):
        if len(conts) > 4 and k % 2:
            continue
        part, vals, _ = solve(prob, items, conts[:k])
        for c, _, _ in conts[:k]:
            check(part[c] == got[c], "container {!r} holds {}, without the later ones {}", c, got[c], part[c])

    # ids and items that fit nowhere have no effect
    ren = rename(case["rename"], items)
    new = {c: c for c, _, _ in conts} if prob["strip"] else rename(case["rename_containers"], conts)
    rc = [[new[c], W, L] for c, W, L in conts]
    other, _, _ = solve(prob, [[ren[i], w, l] for i, w, l in items], rc)
    for (c, _, _), (d, _, _) in zip(conts, rc):
        back = {ren[i]: v for i, v in got[c].items()}
        check(other[d] == back, "ids renamed: container {!r} holds {} instead of {}", c, other[d], back)
    big = max(max(W, L) for _, W, L in conts)
    with_misfits = list(items)
    for k, (pos, a, b) in enumerate(case["misfits"]):
        with_misfits.insert(min(pos, len(with_misfits)), [f"misfit {k}", big + a, big + b])
    fitting = [i for i in items if any(fits(i[1], i[2], W, L, rot) for _, W, L in conts)]
    for variant in (with_misfits, fitting):
        if variant and variant != items:
            other, vals, _ = solve(prob, variant, conts)
            check(other == got, "items that fit nowhere matter: {} instead of {}", other, got)
            ctx.label("misfits")
    packed = sum(len(x) for x in got.values())
    ctx.mark(packed >= 2 and (sum(bool(x) for x in got.values()) >= 2 or bool(rest)))
    ctx.label("two or more containers used", sum(bool(x) for x in got.values()) >= 2)
    ctx.label("leftover", bool(rest))
    ctx.label("container left empty with items left", any(not got[c] for c, _, _ in conts) and bool(rest))


def rename(kind, items):
    n = len(items)
    if kind == "reverse":
        return {i[0]: f"r{n - k:04d}" for k, i in enumerate(items)}
    if kind == "swap-kind":
        return {i[0]: items[(k + 1) % n][0] for k, i in enumerate(items)}
    if kind == "odd":
        pool = list(gen.ODD_IDS) + [f"q{k}" for k in range(n)]
        return {i[0]: pool[k] for k, i in enumerate(items)}
    return {i[0]: str(k * 37 % 1009) if n < 1009 else str(k) for k, i in enumerate(items)}
