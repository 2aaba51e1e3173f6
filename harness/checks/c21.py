"""C21 The solution log tells the truth."""
import logging
import re
from fractions import Fraction

import build
import gen
import oracle
import solving
from core import CAPTURE, check, load, sut

RULE = (
    "problems (bins and strips with and without minimum height, odd ids, now and then huge containers or thousands of items), solved in some way (also with nothing packed), heights changed "
    "afterwards in strips, and up to 3 rounds of editing, solving and logging again; the log is compared with one computed from the reported solution, numbers within rounding; non-trivial: "
    "some items packed and some not, or a strip"
)
CONFIG = {
    "quick": {"budget_s": 11, "max_examples": 10**6},
    "thorough": {"budget_s": 300, "max_examples": 10**8},
}


def setup(tier, index):
    load()
    if not logging.getLogger("hyperpack").isEnabledFor(logging.INFO):
        logging.getLogger("hyperpack").setLevel(logging.INFO)


def strategy(tier):
    return gen.cases(decode, tier)


def decode(s, tier):
    case = solving.solved(s, tier, ops=("solve",) * 8 + ("ls", "hs"), mp_one_in=200, max_ops=1, thousands=250)
    if s.chance(60):
        # very long or wide containers
        prob = case["prob"] = gen.problem(s, mix=("tiny", "small"), max_items=5, strip=False, max_containers=2, kinds=("hp", "pg"))
        case["ops"] = [{"op": "solve", "seq": None}]
        c = s.choice(prob["containers"])
        if s.flag():
            c[1:] = [s.between(10**5, 10**6), 1]
        else:
            c[1:] = [s.between(1, 2), s.between(10**4, 12 * 10**4)]
        s.choice(prob["items"])[1:] = [s.between(c[1] // 2, c[1]) or 1, s.between(c[2] // 2, c[2]) or 1]
    if s.chance(8):
        case["ops"] = []
    case["after"] = s.choice((None, None, "min", "height", "reset", "strategy"))
    case["value"] = s.between(1, 60)
    case["stale"] = s.chance(15)
    # later: the instance edited, solved again and logged again
    case["rounds"] = [
        [[s.choice(("drop", "drop", "add", "size", "container", "items", "settings", "height", "min", "log")), s.below(50), s.between(1, 12)] for _ in range(gen.length(s, 0, 3, 20))]
        + [["solve" if s.below(6) else "", 0, 0]]
        for _ in range(s.choice((0, 0, 1, 1, 2, 3)))
    ]
    return case


def edit(p, bins, what, k, size):
    ids = list(p.items)
    if what == "drop" and len(ids) > 1:
        del p.items[ids[k % len(ids)]]
    elif what == "add":
        p.items[build.unused([[i, 0, 0] for i in ids], f"new{k}")] = {"w": size, "l": k % 9 + 1}
    elif what == "size":
        p.items[ids[k % len(ids)]]["wl"[k % 2]] = size
    elif what == "container" and bins:
        conts = list(p.containers)
        if k % 3 and len(conts) > 1:
            del p.containers[conts[k % len(conts)]]
        else:
            p.containers[build.unused([[i, 0, 0] for i in conts], f"more{k}")] = {"W": size, "L": k % 9 + 1}
    elif what == "items":
        p.items = {f"n{j}": {"w": (size + 3 * j) % 9 + 1, "l": (size + 5 * j) % 7 + 1} for j in range(k % 8 + 1)}
    elif what == "settings":
        p.settings = {"rotation": bool(k % 2)}
    elif what == "height" and not bins:
        p.container_height = max(size, p.container_min_height or 1)
    elif what == "min" and not bins:
        p.container_min_height = min(5 * size, p.container_height)
    elif what == "log":
        p.log_solution()
    elif what == "solve":
        sut("solve", p.solve)


NUM = "\x00"


def expected(p, prob, sol):
    """The log as template and its numbers."""
    items = build.plain_items(p)
    packed = sum(len(x) for x in sol.values())
    lines = ["\nSolution Log:", f"Percent total items stored : {NUM}%"]
    nums = [Fraction(100 * packed, len(items))]
    for c, W, L in build.plain_containers(p):
        h = oracle.height_of(sol[c])
        if prob["strip"]:
            L = max(h, p.container_min_height or 0)
        lines.append(f"Container: {c} {W}x{L}")
        area = sum(v[2] * v[3] for v in sol[c].values())
        nums.append(Fraction(100 * area, W * L) if area else Fraction(0))
        lines.append(f"\t[util%] : {NUM}%")
        if prob["strip"]:
            lines.append(f"\t[max height] : {h}")
    gone = {i for x in sol.values() for i in x}
    lines.append(f"\nRemaining items : {[i for i, _, _ in items if i not in gone]}")
    return "\n".join(lines), nums


def run_case(case, ctx):
    load()
    prob = case["prob"]
    p = build.make(prob)
    for op in case["ops"]:
        solving.run_op(p, prob, op)
    if case["stale"] and p.solution:
        i = prob["items"][0][0]
        p.items[i]["w"] = p.items[i]["w"] + 1
    if case["after"] and prob["strip"]:
        if case["after"] == "min":
            p.container_min_height = min(case["value"], p.container_height)
        elif case["after"] == "height":
            p.container_height = max(case["value"], p.container_min_height or 1)
        elif case["after"] == "reset":
            p.reset_container_height()
    if case["after"] == "strategy":
        p.potential_points_strategy = ("A", "B")
    check_log(p, prob, ctx)
    for edits in case.get("rounds", []):
        for e in edits:
            edit(p, not prob["strip"], *e)
        check_log(p, prob, ctx)
        ctx.label("logged again" if p.solution else "logged again without solution")


def check_log(p, prob, ctx):
    before = (build.snapshot(p), build.ordered(p.solution), dict(p.obj_val_per_container), p.container_height, p.container_min_height)
    CAPTURE.clear()
    log = sut("log_solution", p.log_solution)
    after = (build.snapshot(p), build.ordered(p.solution), dict(p.obj_val_per_container), p.container_height, p.container_min_height)
    check(before == after, "logging changed the problem from {} to {}", before, after)
    if not p.solution:
        check(log is None, "without a solution the log is {!r}", log)
        check(CAPTURE.of("WARNING") and not CAPTURE.of("INFO"), "without a solution: warnings {}", CAPTURE.of("WARNING"))
        ctx.label("no solution")
        return
    check(isinstance(log, str), "the log is {!r}", log)
    check(CAPTURE.of("INFO") == [log], "the log returned was not logged: {}", CAPTURE.of("INFO"))
    sol = build.plain_solution(p)
    template, nums = expected(p, prob, sol)
    m = re.fullmatch(re.escape(template).replace(re.escape(NUM), r"(\d+\.\d{4})"), log)
    check(m, "log\n{}\ndoes not read as\n{}", log, template.replace(NUM, "<number>"))
    for got, want in zip(m.groups(), nums):
        check(abs(float(got) - float(want)) <= 0.000051, "log states {}% for {}%:\n{}", got, float(want), log)
    packed = sum(len(x) for x in sol.values())
    ctx.mark(bool(prob["strip"]) or 0 < packed < len(p.items))
    ctx.label("strip", bool(prob["strip"]))
    ctx.label("nothing packed", packed == 0)
    ctx.label("strip with nothing packed", packed == 0 and bool(prob["strip"]))
    ctx.label("min height above", bool(prob["strip"] and (p.container_min_height or 0) > oracle.height_of(sol["strip-pack-container"])))
