"""C02 Every item is packed at most once, with its own dimensions."""
import build
import gen
import oracle
import solving
from core import sut

RULE = (
    "same problems and operations as C01 with emphasis on sequences (also with ids twice); "
    "non-trivial: at least two items packed and either several containers, a rotated item, a sequence or an unpacked item"
)
CONFIG = {
    "quick": {"budget_s": 12, "max_examples": 100000},
    "thorough": {"budget_s": 600, "max_examples": 10**7},
}


def strategy(tier):
    return gen.cases(decode, tier)


def decode(s, tier):
    case = solving.solved(s, tier, max_ops=3)
    for op in case["ops"]:
        if op.get("seq") and s.chance(12):
            # some ids again
            for _ in range(s.between(1, 3)):
                op["seq"].insert(s.below(len(op["seq"]) + 1), s.choice(op["seq"]))
    return case


def run_case(case, ctx):
    prob = case["prob"]
    p = build.make(prob)
    rot = build.rotation_on(prob)
    for op in case["ops"]:
        allowed = solving.run_op(p, prob, op)
        items = build.plain_items(p)
        sol = sut("reading the solution", build.plain_solution, p)
        conts = build.plain_containers(p)
        seen = oracle.conservation(sol, conts, items, rot, allowed, where=f"after {op['op']}: ")
        dims = {i: (w, l) for i, w, l in items}
        turned = any((v[2], v[3]) != dims[i] for s in sol.values() for i, v in s.items())
        ctx.mark(len(seen) >= 2 and (len(conts) > 1 or turned or allowed is not None or len(seen) < len(items)))
        ctx.label("turned", turned)
        ctx.label("rotation off", not rot)
        ctx.label("sequence has an id twice", bool(op.get("seq")) and len(set(op["seq"])) < len(op["seq"]))
        ctx.label("sequence is a part", allowed is not None and len(allowed) < len(items))
        ctx.label("several containers hold items", sum(bool(s) for s in sol.values()) > 1)
        ctx.label(solving.op_label(op))
