"""C33 An interrupted operation leaves the problem intact and usable."""
import os
import sys
import tempfile

import build
import core
import figures
import gen
import oracle
import record
import solving
from checks import c04
from core import check, fail, load, sut

RULE = (
    "a problem and 1-3 solves, local searches and hypersearches, each interrupted (KeyboardInterrupt, MemoryError, SystemExit, other errors and exceptions that are no errors) "
    "at a generated call of a generated evaluation, while a solution is under construction; afterwards the state is compared with before, "
    "and a final operation with the same on a fresh instance; now and then the making of a figure is interrupted too; non-trivial: an operation was interrupted and the final solution holds an item"
)
CONFIG = {
    "quick": {"budget_s": 14, "max_examples": 10**6},
    "thorough": {"budget_s": 400, "max_examples": 10**8},
}
PLACE = os.path.join(os.path.realpath(core.REPO), "hyperpack") + os.sep


class Stop(KeyboardInterrupt):
    pass


class Full(MemoryError):
    pass


class Broken(RuntimeError):
    pass


class Quit(SystemExit):
    pass


class Late(TimeoutError):
    pass


class Odd(KeyError):
    pass


class Other(BaseException):
    pass


KINDS = {"ctrl-c": Stop, "memory": Full, "error": Broken, "exit": Quit, "timeout": Late, "key": Odd, "base": Other}


def setup(tier, index):
    figures.setup()


def strategy(tier):
    return gen.cases(decode)


def decode(s):
    strip = s.chance(4)
    if s.chance(3):
        prob = gen.problem(s, mix=("micro", "tiny", "small", "small", "mid"), max_items=s.choice((4, 8, 20)), max_containers=3, strip=strip)
    else:
        prob = gen.rich_problem(s, 7, max_containers=3, strip=strip)
    if s.chance(40):
        prob = gen.crowd(s)
    n = len(prob["items"])
    search = prob["kind"] == "hp" and (n <= 8 or n <= 40 and all(1 in i[1:] for i in prob["items"]))

    def op():
        k = s.choice(("solve", "ls", "ls", "hs", "hs") if search else ("solve",))
        return solving.solve_op(s, n) if k == "solve" else solving.ls_op(s) if k == "ls" else solving.hs_op(s, style=gen.search_style(s))

    history = []
    for _ in range(s.between(1, 3)):
        o = op()
        if s.below(4):
            evaluation = s.choice((1, 1, 2, 2, 3, s.between(1, 10), s.between(1, 40))) if o["op"] != "solve" else 1
            o["stop"] = {"evaluation": evaluation, "call": 1 + s.below(2 ** s.between(0, 9)), "kind": s.choice(tuple(KINDS))}
        history.append(o)
    figure = [s.choice(("ctrl-c", "exit", "base")), s.flag(), s.flag()] if s.chance(20) and len(prob["containers"] or ()) < 9 else None
    return {"prob": prob, "history": history, "final": op(), "figure": figure}


class Interruption:
    """Raises at the given call of the given evaluation: between the start and the end of a
    solve, in a function that the solve called indirectly."""

    def __init__(self, stop):
        self.stop = stop
        self.left = stop["call"]
        self.evaluations = 0
        self.done = False

    def start(self, entry, inst):
        self.evaluations += 1
        if self.evaluations == self.stop["evaluation"]:
            sys.settrace(self.trace)

    def end(self, entry, inst):
        sys.settrace(None)

    def trace(self, frame, event, arg):
        if event == "call":
            back = frame.f_back
            if back is not None and back.f_code.co_filename.startswith(PLACE) and back.f_code.co_name != "solve" and frame.f_code.co_filename.startswith(PLACE):
                self.left -= 1
                if self.left == 0:
                    self.done = True
                    raise KINDS[self.stop["kind"]]("interrupted")
        return None


def interrupted(p, prob, op):
    """Whether the operation was interrupted."""
    stop = Interruption(op["stop"])
    try:
        with record.Recorder(type(p), on_start=stop.start, on_end=stop.end, keep=False):
            # not through sut: the injected exception has to come out as it is
            names = build.seq_ids(prob, op.get("seq"))
            if op["op"] == "solve":
                p.solve(sequence=names, debug=op.get("debug", False))
            elif op["op"] == "ls":
                p.local_search(throttle=op["throttle"])
            else:
                solving.set_strategies(p, op["strategies"])
                p.hypersearch(orientation=op["orientation"], sorting_by=tuple(op["sorting"]) if op["sorting"] else None, throttle=op["throttle"])
    except tuple(KINDS.values()):
        return True
    except Exception as e:
        fail(f"{op['op']} interrupted by {op['stop']['kind']} raised {type(e).__name__}: {e}")
    finally:
        sys.settrace(None)
    if stop.done:
        fail(f"{op['op']} swallowed {op['stop']['kind']} raised while constructing a solution")
    return False


def drawing(p, how, ctx):
    """A figure whose making is interrupted: the interruption comes out, and nothing has changed."""
    kind, export, start = how
    try:
        import plotly.graph_objects as go
    except ImportError:
        return

    class Interrupted(figures.Light):
        def interrupt(self, *a, **k):
            raise KINDS[kind]("interrupted")

        write_html = show = interrupt
        if start:
            add_shape = interrupt

    previous = p.settings
    if export:
        with tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_SCRATCH")) as d:
            p.settings = dict(previous, figure={"export": {"type": "html", "path": d}})
    if not p.solution:
        sut("solve", p.solve)
    pre, height = c04.state(p), p.container_height
    before = build.ordered(p.solution), dict(p.obj_val_per_container)
    saved, go.Figure = go.Figure, Interrupted
    try:
        p.create_figure(show=not export)
        came = None
    except KINDS[kind]:
        came = True
    except Exception as e:
        fail(f"create_figure interrupted by {kind} raised {type(e).__name__}: {e}")
    finally:
        go.Figure = saved
    check(came, "create_figure swallowed {} raised while the figure was made", kind)
    after = build.ordered(p.solution), dict(p.obj_val_per_container)
    check(before == after and pre == c04.state(p) and height == p.container_height, "interrupted create_figure changed {} into {}", (before, pre), (after, c04.state(p)))
    p.settings = previous
    ctx.label("interrupted create_figure")


def run_case(case, ctx):
    figures.setup()
    prob = case["prob"]
    p = build.make(prob)
    stops = 0
    room = p.container_height  # in which the solution was found
    for op in case["history"]:
        height = p.container_height
        if "stop" not in op:
            solving.run_op(p, prob, op)
            room = height
            continue
        pre, least = c04.state(p), p.container_min_height
        old = build.ordered(p.solution)
        if not interrupted(p, prob, op):
            ctx.label("ended before the interruption")
            room = height
            continue
        stops += 1
        where = "interrupted " + op["op"]
        ctx.label(where)
        ctx.label("by " + op["stop"]["kind"])
        post = c04.state(p)
        if op["op"] == "hs":
            c04.compare_hs(pre, post, op, p)
        else:
            for key in pre:
                check(pre[key] == post[key], "{} left the {} {} instead of {}", where, key, post[key], pre[key])
        check(p.container_min_height == least, "{} left minimum height {} instead of {}", where, p.container_min_height, least)
        if op["op"] == "solve" or not prob["strip"]:
            check(p.container_height == height, "{} left strip height {} instead of {}", where, p.container_height, height)
        else:
            check((least or 1) <= p.container_height <= height, "{} left strip height {} after {} (minimum {})", where, p.container_height, height, least)
        if p.solution:
            if build.ordered(p.solution) != old:
                room = height
            conts = solving.conts_in_force(prob, room)
            sol = build.plain_solution(p)
            oracle.geometry(sol, conts, where=where + ": ")
            oracle.conservation(sol, conts, build.plain_items(p), build.rotation_on(prob), where=where + ": ")
            oracle.values(p, sol, conts, bool(prob["strip"]), where=where + ": ")
        else:
            check(not p.obj_val_per_container, "{} left no solution, but the values {}", where, p.obj_val_per_container)
        sut("log_solution", p.log_solution)
    if case.get("figure"):
        drawing(p, case["figure"], ctx)
    q = c04.twin(p, prob)
    final = case["final"]
    a = c04.run_final(q, prob, final)
    b = c04.run_final(p, prob, final)
    check(a == b, "after {} a {} gives {} but on a fresh instance {}", [o["op"] for o in case["history"]], final["op"], b, a)
    ctx.mark(stops and any(b["solution"].values()))
    ctx.label("final " + final["op"])
    ctx.label("strip", bool(prob["strip"]))
