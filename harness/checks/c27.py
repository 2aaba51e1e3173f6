"""C27 The local search engine climbs (or descends) correctly for any problem plugged into it."""
import itertools
import sys
from fractions import Fraction

import clock
import gen
from core import check, load, sut

RULE = (
    "random objective tables over the permutations of 0-7, now and then up to 80 elements, also several searches of one object (weighted positions, adjacent costs, random values, plateaus, step "
    "functions), maximised or minimised, with or without a known optimum, throttle constants, time limits on a clock of our own, optional "
    "hooks, duplicate elements, values as floats, huge integers or fractions; the run is compared step by step (sequences evaluated, result, hook calls) with a reference "
    "first-improvement 2-exchange search; non-trivial: at least one node was accepted"
)
ASSUMPTIONS = ["evaluations are observed at evaluate_node, the four operations a problem has to provide"]
CONFIG = {
    "quick": {"budget_s": 10, "max_examples": 10**6},
    "thorough": {"budget_s": 300, "max_examples": 10**8},
}


def strategy(tier):
    return gen.cases(decode, tier)


def decode(s, tier):
    n = s.choice((0, 1, 2, 3, 4, 4, 5, 5, 6, 7) + ((9, 12) if tier == "thorough" else ()))
    elements = s.choice(("ids", "ids", "numbers", "equal"))
    kind = s.choice(("positions", "positions", "adjacent", "random", "random", "plateau", "constant"))
    if s.chance(20):
        n, kind = s.between(8, 24), s.choice(("random", "plateau", "constant", "constant"))
    elif s.chance(150):
        n, kind = s.between(50, 80), s.choice(("random", "constant"))
    scale = s.choice((1, 1, 1, 1e-7, 1e6, -1))
    case = {
        "n": n, "elements": elements, "kind": kind, "scale": scale, "seed": s.below(1 << 30), "optimization": s.choice(("MAX", "MAX", "MIN", "MIN", "MIN", None)),
        "start": s.perm(range(n)), "throttle": s.flag(), "constant": s.choice((None, None, 1, 2, 3, 5, 8)),
        "optimum": s.choice((None, None, None, "near", "start", "far")), "max_time": s.choice((60, 60, 60, 1, 5)), "step": s.choice((0, 0, 0, 0.25, 1)),
        "already": s.choice((0, 0, 0, 1, 60)), "hooks": s.choice(("both", "none", "init", "extra")), "tuple": s.chance(5), "debug": s.chance(6),
    }
    case["numbers"] = s.choice(("floats",) * 6 + ("large", "large", "fractions"))
    if case["numbers"] != "floats":
        case["scale"] = s.choice((1, 1, -1))
    if s.chance(60):
        case["optimization"] = s.choice(("max", "", "BEST"))
    elif s.chance(3):
        # the same object searches again, something else
        case["later"] = [later(s, case) for _ in range(s.choice((1, 1, 2, 3)))]
    return case


def later(s, case):
    n = s.choice((0, 1, 2, 3, 4, 5, 6)) if s.flag() else min(case["n"], 7)
    out = {"n": n, "start": s.perm(range(n)), "max_time": s.choice((60, 60, 1, 5)), "step": s.choice((0, 0, 0, 0.25)), "already": s.choice((0, 0, 1)), "tuple": s.chance(5), "throttle": s.flag()}
    if s.below(3):
        out["seed"] = s.below(1 << 30)
    if s.flag():
        out["optimum"] = s.choice((None, None, "near", "start", "far"))
    if s.chance(3):
        out["constant"] = s.choice((1, 2, 3, 5, 8, 2500))
    if s.chance(4):
        out["optimization"] = s.choice(("MAX", "MIN"))
    if n > 7 or case["n"] <= 7:
        out["kind"] = s.choice(("positions", "adjacent", "random", "plateau"))
    return out


def shrink(case):
    """Fewer searches, fewer elements, then plain values of everything else."""
    if case.get("later"):
        yield {k: v for k, v in case.items() if k != "later"}
        for k in range(len(case["later"])):
            yield dict(case, later=case["later"][:k] + case["later"][k + 1 :])
    n = case["n"]
    if n:
        for gone in (n - 1, *range(n - 1)):
            c = dict(case, n=n - 1, start=[x - (x > gone) for x in case["start"] if x != gone])
            yield c
    plain = {
        "start": list(range(n)), "elements": "numbers", "scale": 1, "optimum": None, "max_time": 60, "step": 0, "already": 0, "hooks": "none",
        "tuple": False, "debug": False, "constant": None, "throttle": False, "optimization": "MAX", "kind": "positions", "numbers": "floats",
    }
    for k, v in plain.items():
        if case.get(k, v) != v:
            yield dict(case, **{k: v})
    if case["seed"] > 9:
        for k in range(10):
            yield dict(case, seed=k)


def objective(case):
    """value(sequence) of this case: a fixed table of numbers."""
    import random

    r = random.Random(case["seed"])
    n = max(1, case["n"])
    table = [[r.randint(0, 9) for _ in range(n)] for _ in range(n)]
    memo = {}

    def value(seq):
        seq = [int(str(x).split("#")[0].lstrip("e")) for x in seq]
        if case["kind"] == "positions":
            v = sum(table[k][x] for k, x in enumerate(seq))
        elif case["kind"] == "adjacent":
            v = sum(table[a][b] for a, b in zip(seq, seq[1:]))
        elif case["kind"] == "constant":
            v = 3
        else:
            v = memo.get(tuple(seq))
            if v is None:
                v = random.Random(f"{case['seed']} {seq}").randint(0, 4 if case["kind"] == "plateau" else 10**6)
                memo[tuple(seq)] = v
        v *= case["scale"]
        # beyond what a float can tell apart
        return {"floats": v, "large": 10**25 + v, "fractions": 7 + Fraction(v) / (3 * 10**20)}[case.get("numbers", "floats")]

    return value


def sequence(case):
    out = []
    for x in case["start"]:
        out.append({"ids": f"e{x}", "numbers": x, "equal": f"e{x // 2}"}[case["elements"]])
    return out


def optimum_of(case, value, maximise, start):
    """The optimum the problem knows of, if any: with an attainable one the search has to stop there."""
    if case["optimum"] is None:
        return None
    v = value(start)
    if case["optimum"] == "start":
        return v
    step = abs(case["scale"]) * (3 if case["kind"] in ("positions", "adjacent") else 10**5 if case["kind"] == "random" else 1)
    if case["optimum"] == "far":
        step *= 10**6
    if case.get("numbers") == "fractions":
        step = Fraction(step) / (3 * 10**20)
    return v + step if maximise else v - step


def reference(case, value, maximise):
    """First-improvement search by exchanges of two elements."""
    start = sequence(case)
    best = value(start)
    optimum = optimum_of(case, value, maximise, start)
    n = len(start)
    limit = n * (n - 1) / 2
    if case["throttle"]:
        limit = min(limit, 2500 if case["constant"] is None else case["constant"])
    log = [["init"]] if case["hooks"] in ("both", "init") else []
    now = case["already"]
    reached = lambda v: optimum is not None and (v >= optimum if maximise else v <= optimum)  # noqa
    node, accepted, retained = start, 0, list(start)
    cut = None
    going = not reached(best)
    if not going:
        cut = "optimum"
    while going:
        going = False
        for count, (i, j) in enumerate(itertools.combinations(range(n), 2), 1):
            cand = list(node)
            cand[i], cand[j] = cand[j], cand[i]
            log.append(["eval", cand])
            now += case["step"]
            v = value(cand)
            better = v > best if maximise else v < best
            if better:
                node, best, retained = cand, v, list(cand)
                accepted += 1
                if case["hooks"] in ("both", "extra"):
                    log.append(["node", list(cand)])
                going = True
            over = now >= case["max_time"]
            if better and reached(best):
                going, cut = False, "optimum"
            if over:
                going, cut = False, cut or "time"
            if better or over:
                break
            if count >= limit:
                cut = "throttle" if limit < n * (n - 1) / 2 else cut
                break
    return retained, best, log, accepted, cut


def make(case, value):
    load()
    module = sys.modules["hyperpack.abstract"]
    base = module.AbstractLocalSearch
    start = sequence(case)
    maximise = case["optimization"] != "MIN"
    # what the object stands for at present
    now = {"start": start, "value": value, "optimum": optimum_of(case, value, maximise, start), "step": case["step"]}
    body = {"now": now}
    if case["optimization"] is not None:
        body["OPTIMIZATION"] = case["optimization"]
    if case["constant"] is not None:
        body["MAX_NEIGHBORS_THROTTLE"] = case["constant"]

    def get_init_solution(self):
        self.current = list(now["start"])
        return list(self.current)

    def calculate_obj_value(self):
        return now["value"](self.current)

    def get_solution(self):
        return list(self.current)

    def evaluate_node(self, sequence):
        self.log.append(["eval", list(sequence)])
        clock.CLOCK.advance(now["step"])
        self.current = list(sequence)

    body.update(get_init_solution=get_init_solution, calculate_obj_value=calculate_obj_value, get_solution=get_solution, evaluate_node=evaluate_node)
    if now["optimum"] is not None or any(x.get("optimum") for x in case.get("later", [])):

        def known(self):
            return base.get_optimum_objective_val(self) if now["optimum"] is None else now["optimum"]

        body["get_optimum_objective_val"] = known
    if case["hooks"] in ("both", "init"):
        body["init_operations"] = lambda self: self.log.append(["init"])
    if case["hooks"] in ("both", "extra"):
        body["extra_node_operations"] = lambda self: self.log.append(["node", list(self.current)])
    obj = type("Problem", (base,), body)()
    obj.log = []
    return obj, start


def run_case(case, ctx):
    load()
    clock.install()
    value = objective(case)
    obj, start = make(case, value)
    search(obj, case, value, start, ctx)
    for more in case.get("later", []):
        case = dict(case, **more)
        value, start = objective(case), sequence(case)
        maximise = case["optimization"] != "MIN"
        obj.now.update(start=start, value=value, optimum=optimum_of(case, value, maximise, start), step=case["step"])
        if "constant" in more:
            obj.MAX_NEIGHBORS_THROTTLE = more["constant"]
        if "optimization" in more:
            obj.OPTIMIZATION = more["optimization"]
        obj.log.clear()
        search(obj, case, value, start, ctx)
        ctx.label("searched again")


def search(obj, case, value, start, ctx):
    given = tuple(start) if case["tuple"] else list(start)
    maximise = case["optimization"] != "MIN"
    begin = clock.CLOCK.now
    with clock.running():
        if case["optimization"] not in ("MAX", "MIN", None):
            if case["optimum"] is not None:
                ctx.label("unknown optimisation with an own optimum")
                return
            try:
                obj.local_search(given, case["throttle"], begin, case["max_time"])
            except ValueError:
                ctx.label("unknown optimisation refused")
                return
            check(False, "optimisation {!r} was accepted", case["optimization"])
        got = sut("local_search", obj.local_search, given, case["throttle"], begin - case["already"], case["max_time"], debug=case["debug"])
    retained, best, log, accepted, cut = reference(case, value, maximise)
    check(list(given) == start, "the initial sequence was changed to {}", given)
    check(list(got) == retained, "returned {} with value {}, expected {} with value {} (start {} with {})", got, value(got), retained, best, start, value(start))
    for k, (x, y) in enumerate(zip(obj.log, log)):
        check(x == y, "step {} was {}, expected {}", k, x, y)
    check(len(obj.log) == len(log), "{} steps, expected {}: {} / {}", len(obj.log), len(log), obj.log[len(log) :], log[len(obj.log) :])
    if cut is None and len(start) > 1:
        for i, j in itertools.combinations(range(len(start)), 2):
            c = list(retained)
            c[i], c[j] = c[j], c[i]
            v = value(c)
            check(not (v > best if maximise else v < best), "not a local optimum: exchange {} {} gives {} instead of {}", i, j, v, best)
    ctx.mark(accepted >= 1)
    ctx.label("nodes accepted: %d" % min(3, accepted))
    ctx.label("values are " + case.get("numbers", "floats"))
    ctx.label("optimization " + str(case["optimization"]))
    ctx.label("ended by " + (cut or "local optimum"))
