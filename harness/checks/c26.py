"""C26 Problems are isolated from their inputs and from each other."""
import copy
import os
import sys

import apiops
import build
import figures
import gen
import solving
from core import REPO, check, load, sut

RULE = (
    "(a) dictionaries given at instantiation or assignment, at any level, plain copies and earlier solutions are changed, and the problem "
    "must not notice, nor may solving change what was given (sequences too); (b) 2-3 problems, some built from the same dictionaries, with 1-6 operations "
    "each run alone and then interleaved, or in the middle of a solve or search of another one (when it reaches its n-th line): every observation has to be the same; non-trivial: (a) the change concerned something in the "
    "problem, (b) at least two problems solve"
)
CONFIG = {
    "quick": {"budget_s": 13, "max_examples": 10**6},
    "thorough": {"budget_s": 400, "max_examples": 10**8},
}


setup = figures.setup


def strategy(tier):
    return gen.cases(decode)


def decode(s):
    if s.flag():
        many = s.chance(12)
        prob = gen.crowd(s) if many else gen.problem(s, mix=("micro", "tiny", "small"), max_items=8, max_containers=3)
        return {
            "kind": "inputs", "prob": prob, "assign": s.choice(("no", "items", "containers", "both", "entry")),
            "edits": [edit(s) for _ in range(s.between(1, 6))], "op": "solve" if many else s.choice(("solve", "solve", "ls", "hs")), "when": s.choice(("before", "after", "both")),
        }
    n = s.between(2, 3)
    probs = []
    for k in range(n):
        if k and s.flag():
            other = copy.deepcopy(probs[0]["prob"])
            other["kind"] = s.choice(("hp", "pg"))
            other["pp"] = gen.pp_strategy(s)
            same = s.flag()
            probs.append({"prob": other, "shares": same})
        else:
            probs.append({"prob": gen.problem(s, mix=("micro", "tiny", "small"), max_items=6, max_containers=3), "shares": False})
    for x in probs:
        x["ops"] = [op(s, x["prob"]) for _ in range(gen.length(s, 1, 6, 30, 80))]
    if s.below(3) == 0:
        # operations of the other problems run in the middle of the first one's
        first = probs[0]["prob"]
        inner = [k for k, x in enumerate(probs) if k for _ in x["ops"]]
        at = sorted(s.between(1, s.choice((40, 400, 400, 4000))) for _ in inner)
        probs[0]["ops"] = [solving_op(s, first) for _ in range(s.between(1, 2))]
        return {"kind": "nested", "probs": probs, "inner": [[a, k] for a, k in zip(at, s.perm(inner))]}
    order = [k for k, x in enumerate(probs) for _ in x["ops"]]
    return {"kind": "interleaved", "probs": probs, "order": s.perm(order)}


def edit(s):
    return {
        "on": s.choice(("items", "containers")), "of": s.choice(("given", "given", "copy", "solution")),
        "what": s.choice(("dim", "dim", "drop", "add", "clear", "clear-dim")), "at": s.below(s.choice((8, 8, 160, 1100))), "value": s.choice((1, 3, 9, -1, "x")),
    }


def solving_op(s, prob):
    hs = {"op": "hs", "strategies": [gen.POOL, gen.CLASSES], "workers": 1, "orientation": s.choice(("wide", None)), "sorting": None, "throttle": True}
    return s.choice(({"op": "solve", "seq": gen.sequence(s, len(prob["items"]))}, {"op": "ls", "throttle": True}, hs) if prob["kind"] == "hp" else ({"op": "solve", "seq": gen.sequence(s, len(prob["items"]))},))


def op(s, prob):
    hp = prob["kind"] == "hp"
    k = s.below(14)
    if k < 5:
        return {"op": "solve", "seq": gen.sequence(s, len(prob["items"])), "twice": s.chance(5)}
    if k < 7 and hp:
        return s.choice(({"op": "ls", "throttle": True}, {"op": "hs", "strategies": [gen.POOL, gen.CLASSES], "workers": 1, "orientation": "wide", "sorting": None, "throttle": True}, {"op": "sort"}, {"op": "orient"}))
    if k == 7 and s.below(3) == 0:
        # one key changed (or deleted) in place, then validated
        return {"op": "key", "key": s.choice(("rotation", "rotation", "rotation", "max_time_in_seconds", "workers_num", "figure")), "value": s.choice((True, False, False, None, "del", 1, "x", {"show": False}))}
    if k == 7:
        return {"op": "settings", "value": {"$": "d", "v": [["rotation", s.flag()]]}}
    if k == 8:
        return {"op": "strategy", "value": {"$": "t", "v": s.perm(gen.CLASSES)[: s.between(1, 10)]}}
    if k == 9:
        return {"op": s.choice(("log", "log", "figure"))}
    if k == 10 and prob["strip"]:
        return {"op": s.choice(("height", "min_height")), "value": s.between(1, 10 * prob["strip"])}
    o = apiops.structure_op(s, which="items" if prob["strip"] else None)
    from checks.c17 import small

    small(o)
    return o


def state(p):
    return {
        "items": build.plain_items(p), "containers": build.plain_containers(p), "solution": build.ordered(p.solution), "values": dict(p.obj_val_per_container),
        "strategy": list(p.potential_points_strategy), "heights": [p.container_height, p.container_min_height], "settings": copy.deepcopy(p.settings),
        "best": getattr(p, "best_strategy", None),
    }


def perform(p, o):
    k = o["op"]
    if "on" in o:
        e, _ = apiops.outcome(apiops.run_structure_op, p, o)
    elif k == "solve":
        names = list(p.items)
        seq = None if o["seq"] is None else [names[i % len(names)] for i in dict.fromkeys(i % len(names) for i in o["seq"])]
        if seq and o.get("twice"):
            seq = seq + seq[: (len(seq) + 1) // 2]
        given = seq and list(seq)
        e, _ = apiops.outcome(p.solve, sequence=given)
        check(given == seq, "solving changed the sequence given from {} to {}", seq, given)
    elif k == "ls":
        e, _ = apiops.outcome(p.local_search)
    elif k == "hs":
        solving.set_strategies(p, o["strategies"])
        e, _ = apiops.outcome(p.hypersearch, orientation=o["orientation"], sorting_by=None)
    elif k == "sort":
        e, _ = apiops.outcome(p.sort_items)
    elif k == "orient":
        e, _ = apiops.outcome(p.orient_items)
    elif k == "key":
        if o["value"] == "del":
            p.settings.pop(o["key"], None)
        else:
            p.settings[o["key"]] = copy.deepcopy(o["value"])
        e, _ = apiops.outcome(p.validate_settings)
    elif k == "settings":
        e, _ = apiops.outcome(setattr, p, "settings", apiops.val(o["value"]))
    elif k == "strategy":
        e, _ = apiops.outcome(setattr, p, "potential_points_strategy", apiops.val(o["value"]))
    elif k == "log":
        e, r = apiops.outcome(p.log_solution)
        return [apiops.exc_name(e), r, state(p)]
    elif k == "figure":
        return [figures.drawn(p), state(p)]
    else:
        e, _ = apiops.outcome(apiops.run_height_op, p, o)
    return [apiops.exc_name(e), state(p)]


def instance(prob, items, conts):
    hp = load()
    kw = {"items": items, "settings": build.settings_of(prob)}
    if prob["strip"]:
        kw["strip_pack_width"] = prob["strip"]
    else:
        kw["containers"] = conts
    p = sut("instantiation", hp.PointGenPack if prob["kind"] == "pg" else hp.HyperPack, **kw)
    build.apply_state(p, prob)
    return p


def fresh(prob):
    return instance(prob, build.items_dict(prob["items"]), build.containers_dict(prob["containers"]) if prob["containers"] else None)


def run_case(case, ctx):
    load()
    for x in case.get("probs", ()):
        if x["shares"]:
            # built from the same dictionaries
            x["prob"].update({k: copy.deepcopy(case["probs"][0]["prob"][k]) for k in ("items", "containers", "strip")})
    if case["kind"] == "interleaved":
        interleaved(case, ctx)
    elif case["kind"] == "nested":
        nested(case, ctx)
    else:
        inputs(case, ctx)
    ctx.label("kind " + case["kind"])


OURS = {}


class Switcher:
    """Runs something when the code of the library reaches its n-th line: one schedule of two threads."""

    def __init__(self, todo):
        self.todo = list(todo)  # [(line count, callable)]
        self.count = 0
        self.root = os.path.join(os.path.realpath(REPO), "hyperpack") + os.sep

    def __call__(self, frame, event, arg):
        name = frame.f_code.co_filename
        if name not in OURS:
            OURS[name] = os.path.realpath(name).startswith(self.root)
        return self.line if OURS[name] else None

    def line(self, frame, event, arg):
        if event == "line":
            self.count += 1
            while self.todo and self.todo[0][0] <= self.count:
                self.todo.pop(0)[1]()
        return self.line

    def __enter__(self):
        sys.settrace(self)

    def __exit__(self, *exc):
        sys.settrace(None)
        return False


def nested(case, ctx):
    alone = []
    for x in case["probs"]:
        p = fresh(x["prob"])
        alone.append([["start", state(p)]] + [perform(p, o) for o in x["ops"]])
    first = case["probs"][0]["prob"]
    items = build.items_dict(first["items"])
    conts = build.containers_dict(first["containers"]) if first["containers"] else None
    ps = [instance(x["prob"], items, conts) if x["shares"] or k == 0 else fresh(x["prob"]) for k, x in enumerate(case["probs"])]
    got = [[["start", state(p)]] for p in ps]

    def step(k):
        got[k].append(perform(ps[k], case["probs"][k]["ops"][len(got[k]) - 1]))

    switch = Switcher([(a, lambda k=k: step(k)) for a, k in case["inner"]])
    for o in case["probs"][0]["ops"]:
        with switch:
            out = perform(ps[0], o)
        got[0].append(out)
    inside = len(case["inner"]) - len(switch.todo)
    for _, do in switch.todo:
        do()
    for k, (a, b) in enumerate(zip(alone, got)):
        for n, (x, y) in enumerate(zip(a, b)):
            check(x == y, "problem {} after operation {}: alone {}, while another problem works {}", k, n, x, y)
    ran = [case["probs"][k]["ops"] for _, k in case["inner"][:inside]]
    ctx.mark(inside > 0 and any(o["op"] in ("solve", "ls", "hs") for ops in ran for o in ops))
    ctx.label("operations in the middle of another", inside > 0)


def interleaved(case, ctx):
    alone = []
    for x in case["probs"]:
        p = fresh(x["prob"])
        alone.append([["start", state(p)]] + [perform(p, o) for o in x["ops"]])
    first = case["probs"][0]["prob"]
    items = build.items_dict(first["items"])
    conts = build.containers_dict(first["containers"]) if first["containers"] else None
    ps = [instance(x["prob"], items, conts) if x["shares"] or k == 0 else fresh(x["prob"]) for k, x in enumerate(case["probs"])]
    got = [[["start", state(p)]] for p in ps]
    for k in case["order"]:
        n = len(got[k]) - 1
        got[k].append(perform(ps[k], case["probs"][k]["ops"][n]))
        for j, p in enumerate(ps):
            if j != k:
                check(state(p) == got[j][-1][-1], "an operation on problem {} changed problem {}: {} -> {}", k, j, got[j][-1][-1], state(p))
    for k, (a, b) in enumerate(zip(alone, got)):
        for n, (x, y) in enumerate(zip(a, b)):
            check(x == y, "problem {} after operation {}: alone {}, interleaved {}", k, n, x, y)
    check(items == build.items_dict(first["items"]), "the items given were changed to {}", items)
    solving_ = sum(any(o["op"] in ("solve", "ls", "hs") for o in x["ops"]) for x in case["probs"])
    ctx.mark(solving_ >= 2)
    ctx.label("shared dictionaries", any(x["shares"] for x in case["probs"]))


def shrink(case):
    if "probs" not in case:
        return
    key = "inner" if case["kind"] == "nested" else "order"
    for j, x in enumerate(case["probs"]):
        # without the n-th operation of problem j, and without its entry in the schedule
        for n in range(len(x["ops"])):
            c = copy.deepcopy(case)
            del c["probs"][j]["ops"][n]
            mine = [k for k, e in enumerate(c[key]) if (e[1] if key == "inner" else e) == j]
            if mine:
                del c[key][mine[-1]]
            yield c
    if key == "inner":
        for k, (a, j) in enumerate(case["inner"]):
            for b in (a // 2, a - 10, a - 1):
                if 0 < b < a:
                    c = copy.deepcopy(case)
                    c["inner"][k][0] = b
                    c["inner"].sort(key=lambda e: e[0])
                    yield c


def do_edit(target, e, keys):
    ids = list(target)
    if not ids:
        return False
    i = ids[e["at"] % len(ids)]
    w = e["what"]
    if w == "dim":
        target[i][keys[e["at"] % 2]] = e["value"]
    elif w == "drop":
        del target[i]
    elif w == "add":
        target["new one"] = {keys[0]: 1, keys[1]: 1}
    elif w == "clear":
        target.clear()
    else:
        target[i].clear()
    return True


def edit_solution(sol, e):
    for c in sol:
        for i in sol[c]:
            if e["what"] in ("dim", "clear-dim"):
                sol[c][i][e["at"] % 4] = 99
                return True
            del sol[c][i]
            return True
        if e["what"] == "clear":
            sol[c]["new one"] = [0, 0, 1, 1]
            return True
    return False


def inputs(case, ctx):
    prob = case["prob"]
    items = build.items_dict(prob["items"])
    conts = build.containers_dict(prob["containers"]) if prob["containers"] else None
    given = {"items": copy.deepcopy(items), "containers": copy.deepcopy(conts)}
    p = instance(prob, items, conts)
    if case["assign"] in ("items", "both"):
        p.items = items
    if case["assign"] in ("containers", "both") and conts:
        p.containers = conts
    if case["assign"] == "entry":
        i = next(iter(items))
        p.items[i] = items[i]
        p.items.update(items)
        if conts:
            p.containers.update(conts)
    fresh_one = fresh(prob)
    kind = case["op"] if prob["kind"] == "hp" else "solve"

    def run(x):
        if kind == "solve":
            sut("solve", x.solve)
        elif kind == "ls":
            sut("local_search", x.local_search)
        else:
            solving.set_strategies(x, [gen.POOL])
            sut("hypersearch", x.hypersearch, orientation=None, sorting_by=None)
        return build.result(x)

    copies = {"items": p.items.deepcopy(), "containers": p.containers.deepcopy()}
    heights = (p.container_height, p.container_min_height)
    want = run(fresh_one)
    old = None
    if case["when"] != "before":
        first = run(p)
        check(first == want, "the problem gives {}, a fresh one {}", first, want)
        check(items == given["items"] and conts == given["containers"], "solving changed the dictionaries given to {} {}", items, conts)
        old = p.solution
        if heights[0] is not None:
            p.container_height = heights[0]
        if kind == "hs":
            p.solve()
        run(p)
        if heights[0] is not None:
            p.container_height = heights[0]
    sol_before = build.ordered(p.solution)
    touched = 0
    for e in case["edits"]:
        if e["of"] == "solution":
            if old is not None and old is not p.solution:
                touched += edit_solution(old, e)
        else:
            src = {"items": items, "containers": conts} if e["of"] == "given" else copies
            if src[e["on"]] is not None:
                keys = apiops.KEYS[e["on"]]
                ids = list(src[e["on"]])
                if ids and not (e["what"] in ("dim", "clear-dim") and not src[e["on"]][ids[e["at"] % len(ids)]]):
                    touched += do_edit(src[e["on"]], e, keys)
        check(build.plain_items(p) == prob["items"], "{} changed the problem's items to {}", e, build.plain_items(p))
        if conts is not None:
            check(build.plain_containers(p) == [list(x) for x in prob["containers"]], "{} changed the problem's containers to {}", e, build.plain_containers(p))
        check(build.ordered(p.solution) == sol_before, "{} changed the problem's solution from {} to {}", e, sol_before, build.ordered(p.solution))
    after = {"items": copy.deepcopy(items), "containers": copy.deepcopy(conts)}
    again = run(p)
    check(again == want, "after {} the problem gives {} instead of {}", case["edits"], again, want)
    check(items == after["items"] and conts == after["containers"], "solving changed the dictionaries given")
    if sol_before and again:
        # changing the new solution must not reach a copy taken earlier, nor the other way round
        kept = copy.deepcopy(again)
        check(build.result(p) == kept, "the reported solution is not stable")
    ctx.mark(touched > 0)
    ctx.label("earlier solution changed", old is not None and any(e["of"] == "solution" for e in case["edits"]))
