"""C16 Items and containers are always well-formed."""
import apiops
import build
import gen
from core import check, load

RULE = (
    "a problem and 1-12 mapping operations (assignment, update, |=, setdefault, del, pop, popitem, clear, attribute deletion) on its "
    "items, containers or their dimensions, valid ones (now and then with instances of subclasses of the types) and ones with a single fault at any place, against a dictionary model; also "
    "faulty structures at instantiation, and structures of no problem; non-trivial: an accepted change and a rejected operation"
)
ASSUMPTIONS = ["booleans as dimensions are not generated (Python counts them as integers)"]
CONFIG = {
    "quick": {"budget_s": 12, "max_examples": 10**6},
    "thorough": {"budget_s": 400, "max_examples": 10**8},
}


def strategy(tier):
    return gen.cases(decode)


def decode(s):
    strip = s.between(1, 20) if s.chance(5) else None
    case = {
        "kind": s.choice(("hp", "hp", "pg")),
        "items": apiops.good_struct(s, "items"),
        "containers": None if strip else apiops.good_struct(s, "containers"),
        "strip": strip,
    }
    k = s.below(10)
    if k == 0:
        case["items"] = apiops.bad_struct(s, "items")
    elif k == 1 and not strip:
        case["containers"] = apiops.bad_struct(s, "containers")
    elif k == 2 and strip:
        case["strip"] = s.choice((0, -1, 1.0, 2.5, "3", [], {"$": "o"}, {"$": "i"}))
    elif k == 3 and strip:
        case["containers"] = apiops.good_struct(s, "containers")
    elif k == 4 and not strip and s.chance(3):
        case["containers"] = None
    for which in ("items", "containers", "strip"):
        case[which] = apiops.disguised(s, case[which], 15)
    if not strip and s.chance(8):
        case["kind"] = "alone"
    case["history"] = [apiops.disguised_op(s, apiops.structure_op(s)) for _ in range(gen.length(s, 1, 12, 100))]
    if case["kind"] == "alone":
        case["history"] = [o for o in case["history"] if o["op"] != "del_attr"]
    return case


def well_formed(p, where):
    for which in ("items", "containers"):
        v = apiops.view(p, which)
        check(len(v) >= 1 and len(getattr(p, which)) == len(v), "{}: {} empty", where, which)
        for i, d in v.items():
            check(isinstance(i, str), "{}: id {!r} in {}", where, i, which)
            check(
                set(d) == set(apiops.KEYS[which]) and all(isinstance(x, int) and x > 0 for x in d.values()),
                "{}: {} holds {!r}: {}", where, which, i, d,
            )


def run_case(case, ctx):
    hp = load()
    cls = hp.HyperPack if case["kind"] == "hp" else hp.PointGenPack
    items, conts, strip = apiops.val(case["items"]), apiops.val(case["containers"]), apiops.val(case["strip"])
    expect = set()
    if case["strip"] is not None:
        if not isinstance(strip, int) or strip <= 0:
            expect.add("DimensionsError")
        if conts is not None:
            expect.add("ContainersError")
    elif apiops.struct_fault(conts, "containers"):
        expect.add(apiops.struct_fault(conts, "containers"))
    if apiops.struct_fault(items, "items"):
        expect.add(apiops.struct_fault(items, "items"))
    if case["kind"] == "alone":
        e, p = apiops.outcome(apiops.Alone, items, conts)
        ctx.label("structures of no problem")
    else:
        e, p = apiops.outcome(cls, containers=conts, items=items, strip_pack_width=strip)
    if expect:
        check(apiops.exc_name(e) in expect, "instantiation gave {} instead of {}: {}", apiops.exc_name(e), sorted(expect), case)
        ctx.mark()
        ctx.label("rejected at instantiation")
        return
    check(e is None, "instantiation raised {}: {}", apiops.exc_name(e), e)
    model = {"items": items}
    if strip:
        model["containers"] = apiops.view(p, "containers")
    else:
        model["containers"] = conts
    accepted = rejected = 0

    def agrees(where):
        for which in model:
            got = apiops.view(p, which)
            check(
                apiops.same_structure(got, model[which]),
                "{}: {} are {} instead of {}", where, which, got, model[which],
            )

    agrees("new problem")
    well_formed(p, "new problem")
    for n, op in enumerate(case["history"]):
        which = op["on"]
        pred = apiops.predict_structure(model[which], op, bool(strip))
        e, _ = apiops.outcome(apiops.run_structure_op, p, op)
        got = apiops.exc_name(e)
        where = f"operation {n} {op}"
        if pred.error is None:
            check(e is None, "{} raised {}: {}", where, got, e)
            accepted += pred.changes
        else:
            check(e is not None, "{} was accepted: {} now {}", where, which, apiops.view(p, which))
            check(got in pred.error, "{} raised {} ({}) instead of {}", where, got, e, sorted(pred.error))
            rejected += 1
        now = apiops.view(p, which)
        if pred.removal:
            # clear takes entries away one by one and is stopped at the last one
            left = list(now)
            check(left and [i for i in model[which] if i in now] == left and all(now[i] == model[which][i] for i in left), "{} left {} of {}", where, now, model[which])
        else:
            check(
                any(apiops.same_structure(now, st) for st in pred.states),
                "{}: {} are {}, expected {}", where, which, now, pred.states[-1] if len(pred.states) == 1 else pred.states,
            )
        model[which] = {i: dict(d) for i, d in now.items()}
        agrees(where)
        well_formed(p, where)
        ctx.label(f"{op['op']} {'ok' if e is None else 'rejected'}")
    ctx.mark(accepted and rejected)
    ctx.label("strip", bool(strip))


_ = build
