"""C18 Solver settings are accepted exactly when valid, and then take effect."""
import multiprocessing
import os

import apiops
import build
import clock
import gen
import record
import solving
from core import CAPTURE, Skip, check, load, sut

RULE = (
    "1-6 settings operations (instantiation, assignment, changing or deleting keys, explicit validation) with valid values and values "
    "of every other type and range, against a model of the settings in force, for a quarter of the cases on problems of every kind; else the effect is observed: a long item is turned or not, the "
    "exchanges tried before the time limit under a simulated clock, the processes a hypersearch uses; non-trivial: an accepted "
    "and a rejected operation, or replaced settings observed in effect"
)
ASSUMPTIONS = ["booleans as numbers are not generated (Python counts them as integers)"]
CONFIG = {
    "quick": {"budget_s": 14, "max_examples": 10**6},
    "thorough": {"budget_s": 400, "max_examples": 10**8},
}
KEYS = ("rotation", "max_time_in_seconds", "workers_num")


def setup(tier, index):
    load()
    clock.install()


def strategy(tier):
    return gen.cases(decode)


def decode(s):
    hp = s.below(4) > 0
    history = []
    for n in range(gen.length(s, 1, 6, 25)):
        k = s.below(8) if n else 0
        if n == 0:
            history.append({"op": "new", "value": None if s.chance(6) else apiops.disguised(s, apiops.settings_value(s))})
        elif k < 4:
            history.append({"op": "assign", "value": apiops.disguised(s, apiops.settings_value(s))})
        elif k == 4:
            history.append({"op": "key", "key": s.choice(KEYS), "value": apiops.setting_value(s, s.choice(KEYS)) if s.chance(3) else None, "del": s.chance(3)})
            if history[-1]["value"] is None:
                history[-1]["value"] = apiops.good_setting(s, history[-1]["key"])
        else:
            history.append({"op": "validate"})
    prob = None
    if s.chance(4):
        prob = gen.problem(s, mix=("micro", "tiny", "small", "small", "mid", "wide"), max_items=30)
        prob["past"] = None
    return {"prob": prob, "hp": hp, "history": history, "probe": s.choice(("rotation", "rotation", "time", "time", "none", "workers") if hp else ("rotation",)), "mp": s.chance(5), "extra": s.choice((0, 0, 1, 2, -1, 3, -2, 5))}


def make(hp, settings, prob=None):
    mod = load()
    cls = mod.HyperPack if hp else mod.PointGenPack
    if prob:
        p = cls(**dict(build.arguments(prob, prob["items"], prob["containers"], None), settings=settings))
        build.apply_state(p, prob)
        return p
    # an item that fits turned only; eight that fill nothing
    items = {"long": {"w": 1, "l": 7}}
    items.update({f"i{k}": {"w": 1, "l": 1} for k in range(8)})
    return cls(containers={"c": {"W": 9, "L": 5}}, items=items, settings=settings)


def in_force(p, model, hp, where):
    """The private attributes the documentation names, where they exist."""
    for k in KEYS if hp else KEYS[:1]:
        got = getattr(p, "_" + k, model[k])
        check(got == model[k] and isinstance(got, bool) == isinstance(model[k], bool), "{}: {} in force is {!r}, not {!r}", where, k, got, model[k])


def warned(model, hp, where, ctx):
    """More workers than cpus: accepted, with a warning; never otherwise."""
    got = any("more workers than your cpu threads" in m for m in CAPTURE.of("WARNING"))
    want = hp and model["workers_num"] > multiprocessing.cpu_count()
    check(got == want, "{}: {} workers on {} cpus, {} warning", where, model["workers_num"], multiprocessing.cpu_count(), "a" if got else "no")
    ctx.label("cpu warning", want)


def run_case(case, ctx):
    hp = case["hp"]
    p = None
    model = None  # in force; None when a rejected explicit validation left it open
    held = None
    accepted = rejected = replaced = 0
    for n, op in enumerate(case["history"]):
        where = f"operation {n} {op}"
        k = op["op"]
        if p is None and k != "new":
            raise Skip("history without a start")
        if k in ("new", "assign"):
            v = apiops.val(op["value"])
            CAPTURE.clear()
            fault = None if v is None and k == "new" else apiops.settings_fault(v, hp)
            if k == "new":
                e, p2 = apiops.outcome(make, hp, v, case.get("prob"))
            else:
                e, _ = apiops.outcome(setattr, p, "settings", v)
            got = apiops.exc_name(e)
            if fault:
                check(got == fault, "{} gave {} instead of {}", where, got, fault)
                rejected += 1
                if k == "new":
                    ctx.mark()
                    ctx.label("rejected at instantiation")
                    return
                if model is not None:
                    check(p.settings == held, "{}: rejected, but the settings became {}", where, p.settings)
                    in_force(p, model, hp, where + " rejected")
            else:
                check(e is None, "{} raised {}: {}", where, got, e)
                if k == "new":
                    p = p2
                replaced += k == "assign"
                accepted += 1
                held = dict(v or {})
                check(p.settings == held, "{}: settings read {}", where, p.settings)
                model = apiops.effective(held)
                in_force(p, model, hp, where)
                warned(model, hp, where, ctx)
        elif k == "key":
            if op["del"]:
                p.settings.pop(op["key"], None)
                held.pop(op["key"], None)
            else:
                p.settings[op["key"]] = held[op["key"]] = apiops.val(op["value"])
            if model is not None:
                in_force(p, model, hp, where + " (not validated)")
                ctx.label("key changed")
        else:
            fault = apiops.settings_fault(held, hp)
            CAPTURE.clear()
            e, _ = apiops.outcome(p.validate_settings)
            got = apiops.exc_name(e)
            if fault:
                check(got == fault, "{} of {} gave {} instead of {}", where, held, got, fault)
                model = None
                rejected += 1
            else:
                check(e is None, "{} of {} raised {}: {}", where, held, got, e)
                model = apiops.effective(held)
                in_force(p, model, hp, where)
                warned(model, hp, where, ctx)
                accepted += 1
    if model is None:
        return
    if not case.get("prob"):
        observe(p, model, case, ctx)
    ctx.mark((accepted and rejected) or (replaced and case["probe"] != "none"))


def observe(p, model, case, ctx):
    mod = load()
    probe = case["probe"]
    if probe == "rotation":
        sut("solve", p.solve)
        packed = "long" in p.solution["c"]
        check(packed == model["rotation"], "rotation {} in force, but the long item is {}packed", model["rotation"], "" if packed else "not ")
        if case["hp"]:
            p.orient_items("wide")
            turned = p.items["long"]["w"] == 7
            check(turned == model["rotation"], "rotation {} in force, but orienting {} the long item", model["rotation"], "turned" if turned else "did not turn")
    elif probe == "time":
        limit = model["max_time_in_seconds"]
        tick = limit / 3.5

        def start(entry, inst):
            clock.CLOCK.advance(tick)

        with record.Recorder(mod.HyperPack, on_start=start, keep=False) as rec, clock.running():
            sut("local_search", p.local_search)
        # solves 1..4 start within the limit (the first is the initial one), 36 exchanges are there to try
        check(rec.seen == 0 or 4 <= rec.seen <= 5, "max time {} in force, {} s per evaluation: {} evaluations", limit, tick, rec.seen)
        ctx.label("time limit observed", rec.seen > 0)
    elif probe == "workers" and case["mp"] and model["workers_num"] <= 6:
        w = model["workers_num"]
        limit = model["max_time_in_seconds"]
        path = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), f"c18-{os.getpid()}")
        n = max(1, 2 * w + case.get("extra", 0))
        solving.set_strategies(p, [gen.CLASSES] * n)
        open(path, "w").close()

        def start(entry, inst):
            with open(path, "a") as f:
                f.write(f"{os.getpid()}\n")
            clock.CLOCK.advance(limit / 3.5)

        with record.Recorder(mod.HyperPack, on_start=start, keep=False), clock.running(monotonic=w < 2):
            sut("hypersearch", p.hypersearch, sorting_by=None, orientation=None)
        with open(path) as f:
            pids = [int(x) for x in f.read().split()]
        os.remove(path)
        packed = "long" in p.solution["c"]
        check(packed == model["rotation"], "hypersearch with {} workers: rotation {} in force, but the long item is {}packed", w, model["rotation"], "" if packed else "not ")
        children = set(pids) - {os.getpid()}
        if pids:
            most = w if w > 1 else 0
            if n % w == 0:
                check(len(children) == most, "{} workers in force, but {} processes searched", w, len(children))
            check(min(most, 1) <= len(children) <= most, "{} workers in force, but {} processes searched {} strategies", w, len(children), n)
            for pid in children:
                # each process: its share of the limit, one start solution and one candidate over it
                if n % w:
                    continue  # the shares differ
                check(4 <= pids.count(pid) <= 7, "max time {} in force, {} s per evaluation: {} evaluations by a worker", limit, limit / 3.5, pids.count(pid))
            ctx.label("workers observed %d" % w)
            ctx.label("key changed before the workers started", len(case["history"]) > 1 and case["history"][-1]["op"] == "key")
