"""C32 The benchmark data are valid perfect-packing problems and stay as they are."""
import apiops
import build
import gen
import oracle
import solving
from core import check, load, sut

RULE = (
    "two of the 21 benchmark sets, given to problems directly as they are (bin problems, or strips of the container's width), and 1-6 operations "
    "on them: solving, a search of a slice of the items, structure operations, sorting, orienting, writing into what was obtained; "
    "afterwards all data sets are compared with what was imported; non-trivial: a problem was changed or solved"
)
CONFIG = {
    "quick": {"budget_s": 9, "max_examples": 10**6},
    "thorough": {"budget_s": 120, "max_examples": 10**8},
}
SETS = [[k, x] for k in range(1, 8) for x in "abc"]


def module(k):
    hp = load()
    return getattr(hp.benchmarks.datasets.hopper_and_turton_2000, f"C{k}")


def data(k, x):
    m = module(k)
    return m.containers, getattr(m, "items_" + x)


def everything():
    out = {}
    for k, x in SETS:
        conts, items = data(k, x)
        out[f"C{k}{x}"] = [[[c, dict(d)] for c, d in conts.items()], [[i, dict(d)] for i, d in items.items()]]
    return out


IMPORTED = None


def setup(tier, index):
    global IMPORTED
    IMPORTED = everything()


def strategy(tier):
    return gen.cases(decode)


def enumerated(tier):
    for k, x in SETS:
        yield {"sets": [[k, x]], "strip": False, "ops": []}


def decode(s):
    sets = [s.choice(SETS) for _ in range(s.choice((1, 2, 2)))]
    ops = []
    for _ in range(gen.length(s, 1, 6, 25)):
        k = s.choice(("solve", "part", "struct", "struct", "struct", "sort", "orient", "copies", "search"))
        op = {"on": s.below(len(sets)), "op": k}
        if k == "struct":
            op["struct"] = apiops.structure_op(s, s.choice(("items", "containers")))
            if s.flag():
                op["first"] = s.below(16)
        elif k in ("part", "search"):
            op["from"], op["n"] = s.below(20), s.between(1, 8 if k == "part" else 4)
        elif k == "sort":
            op["by"] = [s.choice(solving.SORTS), s.flag()]
        elif k == "orient":
            op["to"] = s.choice(("wide", "long"))
        elif k == "solve" and sets[op["on"]][0] > 4:
            op["op"] = "copies"
        ops.append(op)
    return {"sets": sets, "strip": s.chance(4), "ops": ops}


def valid(k, x):
    """A perfect packing needs the container's area exactly, and items that fit."""
    conts, items = data(k, x)
    check(len(conts) == 1 and len(items) > 1, "C{} {}: {} containers, {} items", k, x, len(conts), len(items))
    (c,) = conts.values()
    W, L = c["W"], c["L"]
    area = 0
    for i, d in items.items():
        check(isinstance(i, str) and set(d) == {"w", "l"} and all(oracle.is_int(v) and v > 0 for v in d.values()), "C{} {}: item {!r} is {}", k, x, i, d)
        w, l = d["w"], d["l"]
        check((w <= W and l <= L) or (l <= W and w <= L), "C{} {}: item {!r} of {} does not fit {}", k, x, i, d, c)
        area += w * l
    check(area == W * L, "C{} {}: items of area {} for a container of {}", k, x, area, W * L)


def moderate(p, case):
    """Whether the (possibly edited) containers can be solved quickly."""
    area = sum(W * (p.container_height if case["strip"] else L) for _, W, L in build.plain_containers(p))
    return area <= 40000


def run_case(case, ctx):
    hp = load()
    if IMPORTED is None:
        setup("quick", 0)
    problems = []
    for k, x in case["sets"]:
        valid(k, x)
        conts, items = data(k, x)
        if case["strip"]:
            p = sut("instantiation", hp.HyperPack, strip_pack_width=conts["container_0"]["W"], items=items)
        else:
            p = sut("instantiation", hp.HyperPack, containers=conts, items=items)
            check(build.plain_containers(p) == [[c, d["W"], d["L"]] for c, d in conts.items()], "C{}: containers became {}", k, build.plain_containers(p))
        check(build.plain_items(p) == [[i, d["w"], d["l"]] for i, d in items.items()], "C{} {}: items became {}", k, x, build.plain_items(p))
        problems.append(p)
        ctx.label(f"C{k}")
    for op in case["ops"]:
        p = problems[op["on"]]
        conts, items = data(*case["sets"][op["on"]])
        kind = op["op"]
        if kind == "solve":
            if len(p.items) <= 60 and moderate(p, case):
                height = p.container_height
                sut("solve", p.solve)
                now = [["strip-pack-container", p.containers["strip-pack-container"]["W"], height]] if case["strip"] else build.plain_containers(p)
                oracle.geometry(build.plain_solution(p), now)
        elif kind in ("part", "search"):
            names = list(items)[op["from"] % len(items) :][: op["n"]]
            part = {i: items[i] for i in names}
            if kind == "search" and moderate(p, case):
                p.items = part
                sut("local_search", p.local_search)
            else:
                p.items = part
        elif kind == "struct":
            st = dict(op["struct"])
            if "first" in op and "id" in st:
                now = list(p.items if st["on"] == "items" else p.containers)
                st["id"] = now[op["first"] % len(now)]
            apiops.outcome(apiops.run_structure_op, p, st)
        elif kind == "sort":
            sut("sort_items", p.sort_items, sorting_by=tuple(op["by"]))
        elif kind == "orient":
            sut("orient_items", p.orient_items, orientation=op["to"])
        else:
            for copy in (p.items.deepcopy(), p.containers.deepcopy()):
                for d in copy.values():
                    for key in d:
                        d[key] = 10**6
                copy.clear()
        ctx.mark()
        ctx.label(kind)
        now = everything()
        for name in now:
            check(now[name] == IMPORTED[name], "{} on a problem of {} changed the data of {}", op, case["sets"], name)


