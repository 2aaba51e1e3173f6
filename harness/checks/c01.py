"""C01 Placed items never overlap and never leave their container."""
import build
import gen
import oracle
import solving
from core import sut

RULE = (
    "problems (1-8 containers or a strip, 1-120 items, now and then thousands: mixed, slivers, equal, guillotine cuts, oversize, drawn out in one direction; odd ids), "
    "strategies (default, permuted, partial, empty), sequences, rotation on/off/default, 1-3 solving operations each; "
    "non-trivial: some container of the checked solution holds at least two items"
)
ASSUMPTIONS = ["search operations limited to 16 items (40 when they are all slivers)"]
CONFIG = {
    "quick": {"budget_s": 14, "max_examples": 100000},
    "thorough": {"budget_s": 600, "max_examples": 10**7},
}


def strategy(tier):
    return gen.cases(solving.solved, tier, max_ops=3)


def run_case(case, ctx):
    prob = case["prob"]
    p = build.make(prob)
    for op in case["ops"]:
        height = p.container_height if prob["strip"] else None
        solving.run_op(p, prob, op)
        sol = sut("reading the solution", build.plain_solution, p)
        oracle.geometry(sol, solving.conts_in_force(prob, height), where=f"after {op['op']}: ")
        ctx.mark(any(len(s) >= 2 for s in sol.values()))
        ctx.label(solving.op_label(op))
        ctx.label("strip", bool(prob["strip"]))
        ctx.label("10+ items in a container", any(len(s) >= 10 for s in sol.values()))
        ctx.label("40+ items in a container", any(len(s) >= 40 for s in sol.values()))
        ctx.label("sliver packed", any(min(v[2:]) == 1 for s in sol.values() for v in s.values()))
