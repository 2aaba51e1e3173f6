"""C08 Local search never loses value and ends in a 2-exchange local optimum."""
from itertools import combinations, permutations

import build
import clock
import gen
import record
from core import check, load, sut

RULE = (
    "bin problems of 1-12, now and then up to 71 items (strips too for the first clauses), any strategy; for up to 6 items all permutations are "
    "solved to find those that give the final solution and to check that none of them, for the exchange neighbourhood, "
    "is beaten; for more items the final permutation is the last recorded evaluation with the final result and all its "
    "exchanges are solved afresh; non-trivial: the search improved on the initial solution"
)
CONFIG = {
    "quick": {"budget_s": 16, "max_examples": 10**6},
    "thorough": {"budget_s": 900, "max_examples": 10**8},
}
TOL = 1e-9


def setup(tier, index):
    load()
    clock.install()


def strategy(tier):
    return gen.cases(decode, tier)


def decode(s, tier):
    n = s.choice((3, 4, 5, 5, 6, 8, 12)) + (4 if tier == "thorough" and s.chance(3) else 0)
    prob = gen.fine_problem(s, min(n, 6), s.choice((1, 1, 2))) if s.chance(10) else gen.problem(
        s, mix=("micro", "tiny", "small", "small", "mid"), max_items=n, kinds=("hp",), strip=s.chance(8), max_containers=3,
        mode=s.choice(("mixed", "mixed", "cut", "cut+", "cut+", "thin", "small", None)),
    )
    if s.chance(12):
        # more items than fit
        prob = gen.problem(s, mix=("micro", "tiny", "small"), max_items=20, min_items=13, kinds=("hp",), strip=False, max_containers=2, mode=s.choice(("mixed", "small", "cut+", "few-kinds")))
    if s.chance(50):
        prob = gen.needle(s, 71)
    case = {"prob": prob, "throttle": s.flag(), "before": s.choice((None, None, "solve", "ls")), "debug": s.chance(12)}
    if s.chance(6):
        case["share"] = s.choice((0.3, 0.6, 0.9, 0.99))
    return case


def run_case(case, ctx):
    hp = load()
    prob = case["prob"]
    items = prob["items"]
    names = [i[0] for i in items]
    p = build.make(prob)
    pp = list(p.potential_points_strategy)
    q = build.make(prob, fresh=True)
    sut("solve", q.solve)
    init, init_sol, init_vals = q.calculate_obj_value(), build.plain_solution(q), dict(q.obj_val_per_container)
    if case["before"] == "solve":
        p.solve(sequence=names[::-1])
    elif case["before"] == "ls" and not prob["strip"]:
        p.local_search()
    with record.Recorder(hp.HyperPack) as rec:
        sut("local_search", p.local_search, throttle=case["throttle"], debug=case.get("debug", False))
    final, sol, vals = p.calculate_obj_value(), build.plain_solution(p), dict(p.obj_val_per_container)
    check(final >= init - TOL, "local search ends with {} but the initial solution has {}", final, init)
    check(abs(final - record.objective(vals)) <= TOL, "objective value {} but container values {}", final, vals)
    # values equal but for float rounding may count as better: either outcome is accepted
    if final <= init and not prob["strip"]:
        check(
            sol == init_sol and vals == init_vals,
            "nothing better than {} found but the initial solution {} became {}", init, init_sol, sol,
        )
    ctx.label("improved", final > init + TOL)
    ctx.label("more than 20 items", len(items) > 20)
    ctx.label("improved by less than 0.001", init + TOL < final < init + 0.001)
    ctx.label("strip", bool(prob["strip"]))
    if case.get("share"):
        # the same with time passing, but less than the limit
        t = build.make(prob)
        with record.Recorder(hp.HyperPack, on_start=clock.spending(case["share"], 60, rec.seen), keep=False), clock.running():
            sut("local_search", t.local_search, throttle=case["throttle"])
        if not (case["before"] and prob["strip"]):
            check(
                build.plain_solution(t) == sol and dict(t.obj_val_per_container) == vals,
                "when {} of the time limit is used, local search ends with {} instead of {}", case["share"], build.plain_solution(t), sol,
            )
        ctx.label("a share of the time limit used")
    if prob["strip"]:
        ctx.mark(final > init + TOL)
        return

    cache = {}

    def value(seq):
        if seq not in cache:
            q.solve(sequence=list(seq))
            cache[seq] = (q.calculate_obj_value(), build.plain_solution(q), dict(q.obj_val_per_container))
        return cache[seq]

    def improving(seq):
        for a, b in combinations(range(len(seq)), 2):
            t = list(seq)
            t[a], t[b] = t[b], t[a]
            if value(tuple(t))[0] > final + TOL:
                return tuple(t)
        return None

    if len(names) <= 6:
        giving = [s for s in permutations(names) if value(s)[1] == sol and value(s)[2] == vals]
        check(giving, "no permutation of the items gives the final solution {} with values {}", sol, vals)
        better = [improving(s) for s in giving]
        check(
            any(b is None for b in better),
            "not a local optimum: final value {}, but exchanging two items of {} gives {}",
            final, giving[0], value(better[0])[0] if better[0] else None,
        )
        ctx.label("all permutations solved")
    else:
        last = [e for e in rec.entries if e["solution"] == sol and e["values"] == vals]
        if not last:
            check(rec.seen == 0, "the final solution was never evaluated: {}", sol)
            ctx.label("search not observable")
            return
        tried = []
        for e in reversed(last):
            seq = tuple(e["sequence"] if e["sequence"] is not None else names)
            if seq in tried:
                continue
            tried.append(seq)
            b = improving(seq)
            if b is None:
                break
        else:
            check(False, "not a local optimum: final value {}, sequence {} gives {}", final, b, value(b)[0])
        ctx.label("recorded node checked")
    ctx.mark(final > init + TOL)
