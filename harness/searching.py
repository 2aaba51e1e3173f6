"""What a hypersearch must give, from independent local searches on fresh instances."""
import build
from core import check, sut

TOL = 1e-9


def prepared(prob, op):
    """Items after the documented sorting and orientation, from a fresh instance."""
    p = build.make(prob, fresh=True)
    p.sort_items(sorting_by=tuple(op["sorting"]) if op["sorting"] else None)
    p.orient_items(orientation=op["orientation"])
    return build.plain_items(p)


def plain(prob, items):
    p = build.make(dict(prob, items=items), fresh=True)
    p.solve()
    return p.calculate_obj_value(), build.plain_solution(p), dict(p.obj_val_per_container)


def local(prob, items, strat, throttle):
    p = build.make(dict(prob, items=items, pp=list(strat)), fresh=True)
    sut("local_search", p.local_search, throttle=throttle)
    return p.calculate_obj_value(), build.plain_solution(p), dict(p.obj_val_per_container)


class Expectation:
    def __init__(self, prob, op, strategies=None):
        self.prob, self.op = prob, op
        self.items = prepared(prob, op)
        self.plain = plain(prob, self.items)
        self.by = {}
        for s in strategies if strategies is not None else op["strategies"]:
            t = tuple(s)
            if t not in self.by:
                self.by[t] = local(prob, self.items, t, op["throttle"])

    @property
    def best(self):
        return max([self.plain[0]] + [v[0] for v in self.by.values()])

    def improved(self):
        return self.best > self.plain[0] + TOL


def arrange(exp, op):
    """A long list of the strategies tried: the worst one all over, the best one at one place."""
    ranked = sorted(exp.by, key=lambda t: exp.by[t][0])
    n, at = op["arrange"]
    lst = [ranked[k % max(1, len(ranked) - 1)] if k % 7 == 3 else ranked[0] for k in range(n)]
    lst[at % n] = ranked[-1]
    return lst


def belongs(p, exp, strategies, none_ok):
    """Solution, values and best strategy belong together. Returns the objective value."""
    value = p.calculate_obj_value()
    sol, vals = build.plain_solution(p), dict(p.obj_val_per_container)
    best = p.best_strategy
    if best is None:
        check(none_ok, "no best strategy reported")
        check(
            (sol, vals) == exp.plain[1:],
            "no strategy reported as best, but the plain solution is {} with {}, not {} with {}", exp.plain[1], exp.plain[2], sol, vals,
        )
        return value
    t = tuple(best)
    options = []
    if t in exp.by:
        options.append(exp.by[t][1:])
    if list(t) == list(exp.strategy_of_problem):
        options.append(exp.plain[1:])
    check(options, "best strategy {} was not among those tried {}", list(t), [list(x) for x in strategies])
    check(
        (sol, vals) in options,
        "searching with the best strategy {} gives {} but reported are {} with {}", list(t), options[0], sol, vals,
    )
    return value
