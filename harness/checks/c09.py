"""C09 Hypersearch keeps the best of all strategies it tried."""
import math

import build
import clock
import gen
import record
import searching
import solving
from core import check, load, sut

RULE = (
    "bin problems (1-7 items) and lists of 1-6 strategies (complete, also partial ones, repeated ones), any configured "
    "strategy; every strategy is searched on its own on a fresh instance and the result compared with the single-process "
    "hypersearch's; also lists of up to 700, the pool and, for tiny problems, the exhaustive list; non-trivial: some strategy improved on the "
    "plain solution and the strategies do not all give the same value, or the strategies list is checked"
)
CONFIG = {
    "quick": {"budget_s": 14, "max_examples": 10**6},
    "thorough": {"budget_s": 900, "max_examples": 10**8},
}
TOL = searching.TOL
FIXED = ("A__", "B__", "F", "E")


def setup(tier, index):
    load()
    clock.install()


def strategy(tier):
    return gen.cases(decode, tier)


def decode(s, tier):
    kind = s.choice(("list",) * 60 + ("pool",) * 3 + ("many",) * 2 + ("exhaustive",) * (2 if tier == "thorough" else 1) + ("structure",))
    if kind in ("structure", "exhaustive"):
        prob = gen.problem(s, mix=("micro", "tiny"), max_items=3, kinds=("hp",), strip=False if kind == "exhaustive" else None, max_containers=2)
    else:
        prob = gen.rich_problem(s, s.choice((4, 6, 7, 8)), max_containers=3)
    if kind == "many":
        prob = gen.rich_problem(s, s.choice((3, 4)), max_containers=2)
    op = solving.hs_op(s, max_strategies=6, style=gen.search_style(s))
    if kind == "many":
        n = s.choice((40, 120, 200, 300, 700))
        op["arrange"] = [n, s.choice((n - 1, n - 1, s.below(n)))]
    if s.chance(4):
        op["strategies"].append(s.choice(op["strategies"]))
    case = {"kind": kind, "prob": prob, "ops": [op], "before": s.choice((None, None, None, "solve", "hs"))}
    if s.chance(5):
        case["share"] = s.choice((0.3, 0.6, 0.9, 0.99))
    return case


def run_case(case, ctx):
    hp = load()
    prob, op = case["prob"], case["ops"][0]
    ctx.label("kind " + case["kind"])
    if case["kind"] == "structure":
        structure(build.make(prob))
        ctx.mark()
        return
    p = build.make(prob)
    configured = list(p.potential_points_strategy)
    if case["kind"] in ("list", "many"):
        strategies = [tuple(x) for x in op["strategies"]]
    else:
        strategies = [tuple(x) for x in p.get_strategies(_exhaustive=case["kind"] == "exhaustive")]
    if case["before"] == "solve":
        p.solve(sequence=[i[0] for i in prob["items"]][::-1])
    exp = searching.Expectation(prob, op, strategies)
    exp.strategy_of_problem = configured
    if case["kind"] == "many":
        strategies = searching.arrange(exp, op)
    if case["kind"] in ("list", "many"):
        solving.set_strategies(p, strategies)
    kw = {"orientation": op["orientation"], "sorting_by": tuple(op["sorting"]) if op["sorting"] else None, "throttle": op["throttle"]}
    if case["kind"] == "pool":
        kw["_exhaustive"] = False
    if case["before"] == "hs":
        sut("hypersearch", p.hypersearch, **kw)
        p.items = build.items_dict(prob["items"])
    with record.Recorder(hp.HyperPack) as rec:
        sut("hypersearch", p.hypersearch, **kw)
    value = searching.belongs(p, exp, strategies, none_ok=False)
    check(
        abs(value - exp.best) <= TOL,
        "hypersearch ends with {}, the best of the plain solution ({}) and the strategies ({}) is {}",
        value, exp.plain[0], [v[0] for v in exp.by.values()], exp.best,
    )
    if case.get("share"):
        # the same with time passing, but less than the limit
        t = build.make(prob)
        if case["kind"] in ("list", "many"):
            solving.set_strategies(t, strategies)
        with record.Recorder(hp.HyperPack, on_start=clock.spending(case["share"], 60, rec.seen), keep=False), clock.running():
            sut("hypersearch", t.hypersearch, **kw)
        check(
            build.plain_solution(t) == build.plain_solution(p) and t.best_strategy == p.best_strategy,
            "when {} of the time limit is used, hypersearch ends with {} and {} instead of {} and {}",
            case["share"], build.plain_solution(t), t.best_strategy, build.plain_solution(p), p.best_strategy,
        )
        ctx.label("a share of the time limit used")
    seen = [record.objective(e["values"]) for e in rec.entries]
    check(not seen or value >= max(seen) - TOL, "hypersearch ends with {} although it had found {}", value, max(seen or [0]))
    check(
        list(p.potential_points_strategy) == configured,
        "configured strategy {} became {}", configured, list(p.potential_points_strategy),
    )
    check(build.plain_items(p) == exp.items, "items after hypersearch {} are not the sorted and oriented ones {}", build.plain_items(p), exp.items)
    values = {round(v[0], 9) for v in exp.by.values()}
    ctx.mark(exp.improved() and len(values) > 1)
    ctx.label("improved on plain", exp.improved())
    ctx.label("strategies differ in value", len(values) > 1)
    ctx.label("best is not the last strategy", exp.improved() and exp.by[strategies[-1]][0] < exp.best - TOL)


def structure(p):
    lst = [tuple(x) for x in sut("get_strategies", p.get_strategies)]
    ten = set(gen.CLASSES)
    check(len(set(lst)) == len(lst), "exhaustive strategies are not distinct: {} of {}", len(set(lst)), len(lst))
    for x in lst:
        check(len(x) == 10 and set(x) == ten, "exhaustive strategy {} is no permutation of the classes", x)
    n = 10
    # the fixed suffix: the longest common one
    k = 0
    while k < n and len({x[n - k - 1 :] for x in lst}) == 1:
        k += 1
    check(
        len(lst) == math.factorial(n - k),
        "{} exhaustive strategies do not cover the {} orderings of the {} classes that are not fixed", len(lst), math.factorial(n - k), n - k,
    )
    check(k <= 4, "{} classes fixed in every exhaustive strategy", k)
    for x in p.get_strategies(_exhaustive=False):
        check(len(set(x)) == len(x) and set(x) <= ten, "pool strategy {} is not valid", x)
