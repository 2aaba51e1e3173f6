"""C06 Construction follows the potential-points procedure exactly."""
import build
import gen
import oracle
import refmodel
import solving
from core import check, sut

RULE = (
    "problems (bins and strips, both classes), strategies (default, permuted, partial, empty) and sequences, some drawn out in one direction; the solution "
    "of solve is compared, placement by placement, with an independent model of the procedure; "
    "non-trivial: at least three items placed in one container and a point other than A, B or the origin was drawn"
)
ASSUMPTIONS = ["the model's class rules were written from the method's description and the classes' tests"]
CONFIG = {
    "quick": {"budget_s": 18, "max_examples": 10**6},
    "thorough": {"budget_s": 900, "max_examples": 10**8},
}


def strategy(tier):
    return gen.cases(decode)


def decode(s):
    if s.chance(15):
        prob = gen.more_settings(s, gen.stretched(s))
        return {"prob": prob, "variants": [[gen.pp_strategy(s), gen.sequence(s, len(prob["items"]))] for _ in range(s.between(1, 3))], "form": solving.form(s), "debug": s.chance(30)}
    many = s.chance(8)
    prob = gen.problem(
        s,
        mix=("micro", "tiny", "tiny") + ("small",) * 8 + ("mid",) * (2 if many else 6) + ("wide",) * (not many),
        strip=not many and s.chance(6),
        max_containers=8 if many else 3,
        min_containers=4 if many else 1,
    )
    if s.below(3):
        prob["rotation"] = False  # fewer fitting shapes leave more gaps
    n = len(gen.more_settings(s, prob)["items"])
    return {"prob": prob, "variants": [[gen.pp_strategy(s), gen.sequence(s, n)] for _ in range(s.between(1, 3))], "form": solving.form(s), "debug": s.chance(30)}


def shrink(case):
    for k in range(len(case["variants"])):
        if len(case["variants"]) > 1:
            yield {**case, "variants": [v for j, v in enumerate(case["variants"]) if j != k]}
    for k, (pp, seq) in enumerate(case["variants"]):

        def with_(v, k=k):
            return {**case, "variants": [v if j == k else u for j, u in enumerate(case["variants"])]}

        if seq is not None:
            # make it the items order
            prob = dict(case["prob"], items=[case["prob"]["items"][j] for j in seq])
            if len(case["variants"]) == 1 and seq:
                yield {"prob": prob, "variants": [[pp, None]]}
            for j in range(len(seq)):
                yield with_([pp, seq[:j] + seq[j + 1 :]])
        if pp is not None:
            yield with_([None, seq])
            for j in range(len(pp)):
                yield with_([pp[:j] + pp[j + 1 :], seq])


def run_case(case, ctx):
    prob = case["prob"]
    p = build.make(prob)
    for pp, seq in case["variants"]:
        strat = pp if pp is not None else prob["pp"]
        p.potential_points_strategy = tuple(strat) if strat is not None else tuple(refmodel.DEFAULT)
        if strat is None:
            # the instance default, not only the model's
            check(
                tuple(type(p).DEFAULT_POTENTIAL_POINTS_STRATEGY) == tuple(p.DEFAULT_POTENTIAL_POINTS_STRATEGY)
                and len(set(p.DEFAULT_POTENTIAL_POINTS_STRATEGY)) == 10,
                "default strategy is not a permutation of the ten classes",
            )
            p.potential_points_strategy = tuple(p.DEFAULT_POTENTIAL_POINTS_STRATEGY)
        strat = list(p.potential_points_strategy)
        names = build.seq_ids(prob, seq)
        sut("solve", p.solve, sequence=solving.formed(names, case.get("form")), debug=case.get("debug", False))
        by_id = {i[0]: i for i in prob["items"]}
        items = prob["items"] if names is None else [by_id[i] for i in names]
        conts = solving.conts_in_force(prob, p.container_height)
        stats = {}
        want = refmodel.solve(items, conts, strat, build.rotation_on(prob), stats)
        got = build.ordered(p.solution)
        compare(got, want)
        placed = max((len(x[1]) for x in want), default=0)
        drawn = [c for c in stats if c.startswith("from ") and c not in ("from A", "from B")]
        ctx.mark(placed >= 3 and bool(drawn))
        for c in stats:
            ctx.label(("drawn " if c.startswith("from ") else "generated ") + c.split()[-1])
        ctx.label("strip", bool(prob["strip"]))
        ctx.label("4+ containers", len(prob["containers"] or ()) > 3)
        ctx.label("10+ in a container", placed >= 10)


def compare(got, want):
    got_d = {c: dict(x) for c, x in got}
    want_d = {c: dict(x) for c, x in want}
    if got_d == want_d:
        return
    for (gc, gs), (wc, ws) in zip(got, want):
        check(gc == wc, "container {!r} where {!r} was expected", gc, wc)
        for k, (i, v) in enumerate(ws):
            check(
                dict(gs).get(i) == v,
                "container {!r}, placement {} {!r}: got {}, the procedure gives {}", gc, k + 1, i, dict(gs).get(i), v,
            )
        check(
            len(gs) == len(ws),
            "container {!r}: {} items placed, the procedure places {}: {} / {}", gc, len(gs), len(ws), gs, ws,
        )
    check(False, "solution {} but the procedure gives {}", got, want)
