"""C03 Reported utilisation equals the area really packed."""
import build
import gen
import oracle
import solving
from core import sut

RULE = (
    "same problems and operations as C01, strip packing more often, containers edited in between; utilisation recomputed exactly (fractions) from the "
    "reported rectangles; non-trivial: something is packed and some utilisation is strictly between 0 and 1, or "
    "several containers are given"
)
CONFIG = {
    "quick": {"budget_s": 12, "max_examples": 100000},
    "thorough": {"budget_s": 600, "max_examples": 10**7},
}


def strategy(tier):
    return gen.cases(decode, tier)


def decode(s, tier):
    case = solving.solved(s, tier, max_ops=3, strip=s.choice((True, True, False, False, False)))
    edits = []
    if not case["prob"]["strip"] and s.chance(3):
        for _ in range(s.between(1, 3)):
            k = s.choice(("assign", "set", "del", "dim", "old_set", "old_del"))
            e = {"op": k, "before": s.below(len(case["ops"])), "id": s.choice(("c0", "c1", "c2", "new")), "dims": [s.between(1, 12), s.between(1, 12)]}
            if k == "assign":
                e["value"] = gen.containers_list(s, 12, max_n=4)
            edits.append(e)
    case["edits"] = edits
    return case


def edit(p, e, olds):
    """Changes the containers; also structures that were replaced in the meantime."""
    k, st = e["op"], p.containers
    if k == "assign":
        olds.append(st)
        p.containers = build.containers_dict(e["value"])
        return
    if k.startswith("old"):
        if not olds:
            return
        st, k = olds[-1], k[4:]
    W, L = e["dims"]
    if k == "set":
        st[e["id"]] = {"W": W, "L": L}
    elif e["id"] in list(st):
        if k == "dim":
            st[e["id"]]["W"] = W
        elif len(st) > 1:
            del st[e["id"]]


def run_case(case, ctx):
    prob = case["prob"]
    p = build.make(prob)
    olds = []
    for n, op in enumerate(case["ops"]):
        for e in case.get("edits", ()):
            if e["before"] == n:
                sut("editing the containers", edit, p, e, olds)
                ctx.label("containers edited")
                ctx.label("replaced containers edited", e["op"].startswith("old") and bool(olds))
        solving.run_op(p, prob, op)
        sol = sut("reading the solution", build.plain_solution, p)
        conts = build.plain_containers(p)
        utils = sut("objective values", oracle.values, p, sol, conts, bool(prob["strip"]), where=f"after {op['op']}: ")
        ctx.mark(any(sol.values()) and (len(conts) > 1 or any(0 < u < 1 for u in utils.values())))
        ctx.label("strip", bool(prob["strip"]))
        ctx.label("perfect container", any(u == 1 for u in utils.values()))
        ctx.label("several containers", len(conts) > 1)
        ctx.label("nothing packed", not any(sol.values()))
        ctx.label(solving.op_label(op))
