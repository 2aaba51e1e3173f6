"""C15 Strip height settings are validated and reset as documented."""
import apiops
import build
import gen
import solving
from core import check, load, sut

RULE = (
    "strip problems and histories of 1-14 height assignments (valid, too small, of other types), deletions, resets, attempts on "
    "the containers and solves, run against a model of (height, minimum height); non-trivial: both an accepted and a rejected "
    "operation in the history"
)
CONFIG = {
    "quick": {"budget_s": 10, "max_examples": 10**6},
    "thorough": {"budget_s": 300, "max_examples": 10**8},
}


def strategy(tier):
    return gen.cases(decode)


def decode(s):
    many = s.chance(8)
    prob = gen.problem(s, mix=("micro", "tiny", "small"), max_items=5, strip=True)
    if many:
        # too many items to search long
        prob["items"] += [[f"more{k}", s.between(1, 3), s.between(1, 3)] for k in range(s.between(15, 40))]
    gen.more_settings(s, prob)
    prob["height"] = prob["min_height"] = None
    history = []
    for _ in range(gen.length(s, 1, 14, 120)):
        k = s.below(12)
        if k < 9:
            op = apiops.disguised_op(s, apiops.height_op(s, prob["strip"]))
            history.append(op)
            if op["op"] == "height" and s.chance(12):
                # far too high to be solved, so not for long
                op["value"] = s.choice((2**100, 2**100 + 1, 2**63, 2**31, 10**40, 10**6))
                history.extend(apiops.height_op(s, prob["strip"]) for _ in range(s.below(3)))
                history.append({"op": "reset"})
        elif k < 11:
            history.append(apiops.structure_op(s, "containers"))
        else:
            history.append({"op": s.choice(("solve", "log", "read") if many else ("solve", "ls", "log", "read")) if prob["kind"] == "hp" else "solve"})
    return {"prob": prob, "history": history}


def run_case(case, ctx):
    load()
    prob = case["prob"]
    W = prob["strip"]
    p = build.make(prob)
    state = (10 * W, None)
    accepted = rejected = 0

    def seen():
        return (p.container_height, p.container_min_height)

    check(seen() == state, "a new strip of width {} has heights {} instead of {}", W, seen(), state)
    conts = apiops.view(p, "containers")
    check(list(conts) == [p.STRIP_PACK_CONT_ID] and conts[p.STRIP_PACK_CONT_ID]["W"] == W, "containers of the strip: {}", conts)
    for op in case["history"]:
        k = op["op"]
        if k == "solve":
            sut("solve", p.solve)
        elif k == "ls":
            sut("local_search", p.local_search)
            # a search may only lower the strip, and never below the minimum (C14)
            h, m = seen()
            check(m == state[1] and h <= state[0] and (m is None or h >= m), "local search turned heights {} into {}", state, (h, m))
            state = (h, m)
        elif k == "log":
            sut("log_solution", p.log_solution)
        elif k == "read":
            sut("reading", lambda: (str(p.containers), p.containers.deepcopy(), p.container_height))
        elif "on" in op:
            e, _ = apiops.outcome(apiops.run_structure_op, p, op)
            pred = apiops.predict_structure(conts, op, True)
            got = apiops.exc_name(e)
            if pred.error is None:
                check(e is None, "{} raised {}: {}", op, got, e)
            else:
                check(got in pred.error, "{} on a strip's containers gave {} instead of {}", op, got, sorted(pred.error))
            check(apiops.view(p, "containers") == conts, "{} changed the strip's containers to {}", op, apiops.view(p, "containers"))
        else:
            want, new = apiops.predict_height(state, op, W)
            e, _ = apiops.outcome(apiops.run_height_op, p, op)
            got = apiops.exc_name(e)
            if want is None:
                check(e is None, "heights {}: {} raised {}: {}", state, op, got, e)
                accepted += 1
            else:
                check(got in want, "heights {}: {} gave {} instead of {}", state, op, got, sorted(want))
                rejected += 1
            state = new
            ctx.label("min height moved by reset", k == "reset")
        h, m = seen()
        check((h, m) == state and isinstance(h, int), "heights {} after {}, expected {}", (h, m), op, state)
        check(m is None or m <= h, "minimum height {} above height {}", m, h)
        check(apiops.view(p, "containers") == conts, "{} changed the strip's containers", op)
    # the heights have effect: solutions stay inside
    if state[0] <= 3000:
        sut("solve", p.solve)
        for i, v in p.solution[p.STRIP_PACK_CONT_ID].items():
            check(v[1] + v[3] <= state[0], "item {!r} at {} above the strip height {}", i, v, state[0])
    ctx.mark(accepted and rejected)
    ctx.label("accepted", bool(accepted))
    ctx.label("rejected", bool(rejected))


_ = solving
