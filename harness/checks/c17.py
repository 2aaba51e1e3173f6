"""C17 A reported solution is never stale."""
import apiops
import build
import figures
import gen
import oracle
import solving
from core import check, load, quiet_stdout, sut

RULE = (
    "a problem and 2-14 operations: solving, every mapping operation on items, containers and dimensions (valid and faulty), sorting, "
    "orienting, settings, strategy, heights, logging, reading and copying; after each, the solution is empty or valid for the present "
    "items and containers, empty after every change, untouched by the rest; non-trivial: a change met a non-empty solution and a "
    "harmless operation met another"
)
CONFIG = {
    "quick": {"budget_s": 14, "max_examples": 10**6},
    "thorough": {"budget_s": 400, "max_examples": 10**8},
}


setup = figures.setup


def strategy(tier):
    return gen.cases(decode)


def decode(s):
    prob = gen.problem(s, mix=("micro", "tiny", "small"), max_items=6, max_containers=3, kinds=("hp", "hp", "pg"))
    many = s.chance(40)
    if many:
        prob = gen.crowd(s)
    hp = prob["kind"] == "hp"
    n = len(prob["items"])
    history = []
    for _ in range(gen.length(s, 2, 14, 80)):
        k = s.below(16)
        if k < 5:
            history.append({"op": "solve", "part": s.chance(4), "reverse": s.flag()})
        elif k < 11:
            op = apiops.structure_op(s)
            small(op)
            history.append(op)
        elif k == 11:
            history.append(apiops.height_op(s, prob["strip"] or 5))
        elif k == 12 and hp:
            history.append(
                s.choice(
                    (
                        {"op": "sort", "sorting": [s.choice(solving.SORTS), s.flag()]},
                        {"op": "sort", "sorting": None},
                        {"op": "sort", "sorting": ["nope", True]},
                        {"op": "orient", "orientation": s.choice(("wide", "long", None, "nope"))},
                        {"op": "ls"},
                        {"op": "hs", "sorting": s.flag()},
                    )
                )
            )
        elif k == 13:
            history.append({"op": "settings", "value": apiops.settings_value(s)})
        elif k == 14:
            history.append({"op": "strategy", "value": apiops.strategy_value(s)})
        else:
            history.append({"op": s.choice(("log", "read", "copy", "figure", "validate"))})
    if many:
        gen.without_searches(history)
    return {"prob": prob, "history": history, "n": n}


def small(op):
    """Sizes that can be solved."""

    def walk(x):
        if isinstance(x, list):
            return [walk(v) for v in x]
        if isinstance(x, dict) and "v" in x:
            return dict(x, v=walk(x["v"]))
        if isinstance(x, int) and not isinstance(x, bool) and x > 60:
            return 1 + x % 60
        return x

    for key in ("value", "pairs"):
        if key in op:
            op[key] = walk(op[key])


def state(p):
    return {"solution": build.ordered(p.solution) if p.solution else [], "values": list(p.obj_val_per_container.items())}


def valid(p, prob, where, values=True):
    if not p.solution:
        check(p.solution == {} and p.obj_val_per_container == {}, "{}: empty solution {} but values {}", where, p.solution, p.obj_val_per_container)
        return
    items = build.plain_items(p)
    conts = build.plain_containers(p)
    sol = build.plain_solution(p)
    oracle.conservation(sol, conts, items, True, where=where + ": ")
    oracle.geometry(sol, conts, where=where + ": ")
    if values:
        utils = oracle.utilisations(sol, conts, bool(prob.get("strip")))
        got = p.obj_val_per_container
        check(set(got) == set(utils) and all(oracle.close(got[c], utils[c]) for c in utils), "{}: values {} do not belong to the solution {}", where, got, sol)


def run_case(case, ctx):
    load()
    prob = case["prob"]
    p = build.make(prob)
    valid(p, prob, "new problem")
    met_change = met_harmless = False
    for n, op in enumerate(case["history"]):
        k = op["op"]
        where = f"operation {n} {op}"
        before = state(p)
        structures = (apiops.view(p, "items"), apiops.view(p, "containers"))
        had = bool(p.solution)
        if k in ("solve", "ls", "hs"):
            names = list(p.items)
            if k == "solve":
                seq = names[::-1] if op["reverse"] else names
                sut("solve", p.solve, sequence=seq[: max(1, len(seq) // 2)] if op["part"] else seq)
            elif k == "ls":
                sut("local_search", p.local_search)
            else:
                solving.set_strategies(p, [gen.POOL])
                with_workers = p.settings if isinstance(p.settings, dict) else {}
                if apiops.settings_fault(with_workers) or (with_workers.get("workers_num") or 1) != 1:
                    continue
                sut("hypersearch", p.hypersearch, sorting_by=("area", True) if op["sorting"] else None)
            check(bool(p.solution), "{}: no solution", where)
            valid(p, prob, where)
            continue
        kind = "harmless"
        if "on" in op:
            pred = apiops.predict_structure(structures[op["on"] == "containers"], op, bool(prob["strip"]))
            e, _ = apiops.outcome(apiops.run_structure_op, p, op)
            kind = "change" if e is None and pred.error is None and pred.changes else "open" if e is not None else "harmless"
        elif k in ("height", "min_height", "reset", "del_height", "del_min_height"):
            if prob["strip"]:
                # kept within what can be solved
                if isinstance(op.get("value"), int) and op["value"] > 400:
                    continue
                apiops.outcome(apiops.run_height_op, p, op)
            kind = "open"
        elif k == "sort":
            by = op["sorting"]
            e, _ = apiops.outcome(p.sort_items, sorting_by=tuple(by) if by else None)
            kind = "harmless" if by is None or by[0] == "nope" else "change"
        elif k == "orient":
            apiops.outcome(p.orient_items, orientation=op["orientation"])
            kind = "harmless" if apiops.view(p, "items") == structures[0] else "change"
            if kind == "harmless" and op["orientation"] in ("wide", "long"):
                kind = "open"
        elif k == "settings":
            apiops.outcome(setattr, p, "settings", apiops.val(op["value"]))
        elif k == "strategy":
            apiops.outcome(setattr, p, "potential_points_strategy", apiops.val(op["value"]))
        elif k == "log":
            sut("log_solution", p.log_solution)
        elif k == "read":
            sut(
                "reading",
                lambda: (str(p.items), str(p.containers), repr(p.items), len(p.items), list(p.items.values()), p.items == p.items, list(p.containers.items()), "x" in p.items, p.items.get("nope"), p.container_height),
            )
        elif k == "copy":
            sut("deepcopy", lambda: (p.items.deepcopy(), p.containers.deepcopy(), p.items.deepcopy(list(p.items)[:1]), dict(p.items)))
        elif k == "figure":
            if isinstance(p.settings, dict):
                with quiet_stdout():
                    figures.drawn(p)
        elif k == "validate":
            apiops.outcome(p.validate_settings)
        now = (apiops.view(p, "items"), apiops.view(p, "containers"))
        changed = any(not apiops.same_structure(a, b) for a, b in zip(now, structures))
        if kind == "change" or changed:
            check(
                p.solution == {} and p.obj_val_per_container == {},
                "{}: the solution is still {} with values {}", where, p.solution, p.obj_val_per_container,
            )
            met_change |= had
            ctx.label("change met a solution: " + k, had)
        elif kind == "harmless":
            check(state(p) == before, "{} changed the solution from {} to {}", where, before, state(p))
            met_harmless |= had
        else:
            check(state(p) == before or (p.solution == {} and p.obj_val_per_container == {}), "{} changed the solution from {} to {}", where, before, state(p))
        valid(p, prob, where)
    ctx.mark(met_change and met_harmless)
    ctx.label("strip", bool(prob["strip"]))
