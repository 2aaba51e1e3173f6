"""C10 Multi-process hypersearch finds what single-process hypersearch finds."""
import build
import clock
import gen
import record
import searching
import solving
from core import check, load, sut

RULE = (
    "bin problems (1-8 items, ids up to thousands of characters, also up to 80 items with nothing to search), 1-7 strategies and "
    "2-6 workers, sometimes up to 60 and 64; the multi-process result is compared with the single-process one and with fresh local searches; "
    "non-trivial: at least two workers got strategies and some strategy improved on the plain solution, or the winner's "
    "result exceeds 64 KB; a case still running after 100 s is a deadlock"
)
ASSUMPTIONS = ["Linux; workers are forked (the default here), in some cases spawned or started by a fork server (as on other systems)"]
CONFIG = {
    "quick": {"budget_s": 24, "max_examples": 10**6},
    "thorough": {"budget_s": 900, "max_examples": 10**8},
}
TOL = searching.TOL


def setup(tier, index):
    load()
    clock.install()


def strategy(tier):
    return gen.cases(decode)


def decode(s):
    big = s.chance(12)
    if big:
        n = s.choice((20, 40, 70))
        prob = {
            "kind": "hp", "containers": [["c0", 60, 60]], "strip": None, "rotation": None, "pp": None,
            "items": [[f"{k}-" + "x" * s.choice((900, 2000, 5000)), s.between(1, 6), s.between(1, 6)] for k in range(n)],
        }
        case = {"prob": prob, "big": True}
        op = solving.hs_op(s, workers=s.between(2, 4), max_strategies=3)
    else:
        prob = gen.rich_problem(s, s.choice((3, 6, 8)), max_containers=3)
        case = {"prob": prob, "big": False}
        op = solving.hs_op(s, workers=s.between(2, 6), max_strategies=7, style=gen.search_style(s))
        if s.chance(8):
            # many workers, many strategies, one of them better
            op["workers"] = s.choice((2, 3, 7, 12, 20, 40, 64))
            n = s.choice((10, 20, 35, 45, 64))
            op["arrange"] = [n, s.choice((n - 1, n - 1, s.below(n)))]
        else:
            case["method"] = solving.start_method(s, 12)
            if case["method"] != "fork":
                op["workers"] = min(op["workers"], 3)
    case["ops"] = [op]
    if not big and s.chance(6) and case.get("method", "fork") == "fork":
        case["share"] = s.choice((0.3, 0.6, 0.9, 0.99))
    return case


def run_case(case, ctx):
    prob, op = case["prob"], case["ops"][0]
    p = build.make(prob)
    configured = list(p.potential_points_strategy)
    strategies = [tuple(x) for x in op["strategies"]]
    if case["big"]:
        # no local search on big problems: one evaluation by time limit
        p.settings = dict(p.settings, max_time_in_seconds=1)
        solving.set_strategies(p, strategies)
        solving.set_workers(p, op["workers"])
        with record.Recorder(load().HyperPack, on_start=clock.spending(0.7, 1, 1), keep=False):
            sut("hypersearch", p.hypersearch, orientation=None, sorting_by=None, throttle=True)
        sol, vals = build.plain_solution(p), dict(p.obj_val_per_container)
        import oracle

        oracle.geometry(sol, prob["containers"])
        oracle.conservation(sol, prob["containers"], prob["items"], True)
        oracle.values(p, sol, prob["containers"], False)
        q = build.make(prob, fresh=True)
        q.solve()
        check(p.calculate_obj_value() >= q.calculate_obj_value() - TOL, "multi-process result {} below the plain solution {}", p.calculate_obj_value(), q.calculate_obj_value())
        size = sum(len(i) for x in sol.values() for i in x)
        ctx.mark(size > 65536)
        ctx.label("result over 64 KB", size > 65536)
        return
    exp = searching.Expectation(prob, op)
    exp.strategy_of_problem = configured
    if "arrange" in op:
        strategies = searching.arrange(exp, op)
        op = dict(op, strategies=strategies)
    with solving.started_by(case.get("method")), clock.real(case.get("method", "fork") != "fork"):
        solving.run_op(p, prob, op)
    ctx.label("started by " + case.get("method", "fork"))
    value = searching.belongs(p, exp, strategies, none_ok=True)
    check(
        abs(value - exp.best) <= TOL,
        "{} workers: hypersearch ends with {} but the best of plain {} and strategies {} is {}",
        op["workers"], value, exp.plain[0], [v[0] for v in exp.by.values()], exp.best,
    )
    sp = build.make(prob, fresh=True)
    with record.Recorder(load().HyperPack, keep=False) as rec:
        solving.run_op(sp, prob, dict(op, workers=1))
    if case.get("share"):
        # the same with time passing, but less than the limit
        t = build.make(prob)
        with record.Recorder(load().HyperPack, on_start=clock.spending(case["share"], 60, rec.seen), keep=False), clock.running(monotonic=False):
            solving.run_op(t, prob, op)
        check(
            abs(t.calculate_obj_value() - exp.best) <= TOL,
            "{} workers: when {} of the time limit is used, hypersearch ends with {} instead of {}", op["workers"], case["share"], t.calculate_obj_value(), exp.best,
        )
        ctx.label("a share of the time limit used")
    check(abs(sp.calculate_obj_value() - value) <= TOL, "single process {} but {} workers {}", sp.calculate_obj_value(), op["workers"], value)
    check(list(p.potential_points_strategy) == configured, "configured strategy became {}", list(p.potential_points_strategy))
    check(build.plain_items(p) == exp.items, "items after hypersearch {} instead of {}", build.plain_items(p), exp.items)
    ctx.mark(len(strategies) >= 2 and exp.improved())
    ctx.label("improved on plain", exp.improved())
    ctx.label("fewer strategies than workers", len(strategies) < op["workers"])
    ctx.label("more strategies than workers", len(strategies) > op["workers"])
    values = [v[0] for v in exp.by.values()]
    ctx.label("a later strategy is best", exp.improved() and exp.by[strategies[0]][0] < max(values) - TOL)
    ctx.label("workers %s" % (op["workers"] if op["workers"] < 7 else "7 to 64"))
    ctx.label("40 workers with work", min(op["workers"], len(strategies)) >= 35)
