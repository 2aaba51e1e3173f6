"""C20 Exported figures show exactly the solution."""
import json
import os
import shutil

import build
import gen
import solving
from figures import Light
from core import CAPTURE, Skip, check, load, sut

RULE = (
    "problems (up to 5 containers, strips with heights, up to 60 items, now and then over 1000, odd ids), solved in some way and "
    "exported into a scratch folder (a fifth with the real plotly, the rest with a light stand-in for its figure class); the shapes are read back from the written pages, now and then exported again after edits or with other figure settings; also figures without "
    "solution, without operation, with failing exports, images and showing (both only recorded); non-trivial: at least two items drawn, "
    "or a warning or failure was due"
)
ASSUMPTIONS = [
    "plotly 5.24.1 as installed; writing images and opening a browser are replaced by recording the call",
    "for container ids holding a slash the export has to fail (there is no such folder)",
]
CONFIG = {
    "quick": {"budget_s": 18, "max_examples": 10**6},
    "thorough": {"budget_s": 600, "max_examples": 10**8},
}
ROOT = None
RECORD = []


def setup(tier, index):
    global ROOT
    load(plotly=True)
    import plotly.graph_objects as go
    import plotly.io as pio

    global REAL
    REAL = go.Figure
    ROOT = os.path.join(os.environ.get("VERIF_SCRATCH") or "/tmp", f"c20-{os.getpid()}")
    os.makedirs(ROOT, exist_ok=True)

    def shown(self, *a, **k):
        RECORD.append(("show", json.loads(self.to_json())))

    def image(self, file=None, format=None, scale=None, width=None, height=None, **k):
        scope = getattr(getattr(pio, "kaleido", None), "scope", None)
        scale = scale or getattr(scope, "default_scale", None) or 1
        size = (
            (width or getattr(scope, "default_width", None) or 700) * scale,
            (height or getattr(scope, "default_height", None) or 500) * scale,
        )
        RECORD.append(("image", str(file), size, json.loads(self.to_json())))

    REAL.show = shown
    REAL.write_image = image
    Light.show = shown
    Light.write_image = image


REAL = None


def teardown():
    if ROOT and ROOT.startswith("/tmp/"):
        shutil.rmtree(ROOT, ignore_errors=True)


def strategy(tier):
    return gen.cases(decode)


def decode(s):
    kind = s.choice(("html",) * 10 + ("image",) * 5 + ("show", "show", "no-solution", "no-operation", "fail-dir", "fail-id", "stale"))
    many = kind == "html" and s.chance(40)
    real = not many and s.chance(5)
    if many:
        n = s.between(1001, 1100)
        prob = {
            "kind": s.choice(("hp", "pg")), "containers": [["c0", 34, 34]], "strip": None, "rotation": None, "pp": None,
            "items": [[f"i{k}", 1, 1] for k in range(n)],
        }
        op = {"op": "solve", "seq": None, "debug": False}
    elif s.chance(12):
        prob = gen.sparse(s)
        op = solving.solve_op(s, len(prob["items"]))
        kind = s.choice(("html", "html", "image", "show"))
    else:
        prob = gen.problem(s, mix=("micro", "tiny", "small", "small", "mid", "wide"), max_items=s.choice((4, 10, 15) if real else (4, 10, 60)))
        if not real and s.chance(10):
            # more containers than most
            prob = gen.problem(s, mix=("micro", "tiny", "small"), max_items=12, strip=False)
            prob["containers"] += [[f"c {k}", s.between(1, 9), s.between(1, 9)] for k in range(s.between(4, 12))]
        if s.chance(12):
            prob = gen.problem(s, mix=("mid", "wide"), max_items=12, strip=True)
            if prob["strip"] <= 40:
                prob["strip"] += 40
        gen.more_settings(s, prob)
        if prob["strip"] is None:
            # ids become file names
            prob["containers"] = [[safe(i, k), w, l] for k, (i, w, l) in enumerate(prob["containers"])]
            if kind == "fail-id":
                at = s.below(len(prob["containers"]))
                prob["containers"][at][0] = s.choice(("a/b", "x/", "y/z/1", "q" * 300))
        elif kind == "fail-id":
            kind = "html"
        n = len(prob["items"])
        op = solving.solve_op(s, n)
        if prob["kind"] == "hp" and n <= 6 and s.chance(3):
            op = solving.ls_op(s)
    name = s.choice((None, None, "fig", "A-b_9", "x" * 45))
    case = {"kind": kind, "prob": prob, "ops": [op], "name": name, "again": s.choice((None,) * 6 + ("same", "edited", "edited")), "late": s.flag(), "real": real}
    case["format"] = s.choice(("pdf", "png", "jpeg", "webp", "svg"))
    case["size"] = [s.choice((None, 300, 1700)), s.choice((None, 200, 999))]
    case["both"] = kind in ("html", "image") and s.chance(3)
    case["show"] = [s.choice((None, True, False)), s.choice((None, True, False))]
    if kind in ("html", "image") and s.chance(4) or kind == "image" and s.flag():
        # then with other figure settings
        case["again"] = "other"
        case["others"] = [
            {
                "kind": s.choice(("html", "image", "image")), "name": s.choice((None, name, "fig2", "z")), "both": s.chance(3), "real": real,
                "format": s.choice(("pdf", "png", "jpeg", "webp", "svg")), "size": [s.choice((None, None, 300, 50)), s.choice((None, None, 200))],
                "show": [s.choice((None, True, False)), s.choice((None, True, False))], "in place": s.chance(3),
            }
            for _ in range(s.choice((1, 1, 2, 3)))
        ]
    return case


def safe(i, k):
    """An id that can be part of a file name."""
    if any(c in i for c in "/\\\0\n\r") or len(i.encode()) > 100:
        return f"c{k}"
    return i


def newest(path):
    """Data and layout of the figure in an html page."""
    with open(path, encoding="utf-8") as f:
        text = f.read()
    at = text.rfind("Plotly.newPlot(")
    check(at >= 0, "{} holds no figure", path)
    dec = json.JSONDecoder()
    pos = at + len("Plotly.newPlot(")
    out = []
    for _ in range(3):
        while text[pos] in " \n\r\t,":
            pos += 1
        obj, pos = dec.raw_decode(text, pos)
        out.append(obj)
    return out[1], out[2]


def shapes_of(layout):
    items, outline = {}, []
    for sh in layout.get("shapes", []):
        label = (sh.get("label") or {}).get("text")
        box = (sh["x0"], sh["y0"], sh["x1"], sh["y1"])
        check(sh.get("type") == "rect", "shape of type {}", sh.get("type"))
        if label is None:
            outline.append(box)
        else:
            check(label not in items, "item {!r} drawn twice", label)
            items[label] = box
    return items, outline


def compare(layout, placed, W, L, cont):
    items, outline = shapes_of(layout)
    want = {i: (v[0], v[1], v[0] + v[2], v[1] + v[3]) for i, v in placed.items()}
    if "" in want and "" not in items and want[""] in outline:
        items[""] = want[""]
        outline.remove(want[""])
    check(items == want, "container {!r}: drawn items {}, placed {}", cont, items, want)
    check(outline == [(0, 0, W, L)], "container {!r}: outline {} instead of {}", cont, outline, (0, 0, W, L))
    for axis, side in (("xaxis", W), ("yaxis", L)):
        seen = (layout.get(axis) or {}).get("range")
        if seen is not None and not (layout[axis].get("autorange")):
            check(min(seen) <= 0 and max(seen) >= side, "container {!r}: the part of the {} shown is {}, of 0 to {}", cont, axis, seen, side)


def state(p):
    return {"snap": build.snapshot(p), "solution": build.ordered(p.solution), "values": dict(p.obj_val_per_container), "h": (p.container_height, p.container_min_height)}


def figure_settings(case, out):
    kind = case["kind"]
    figure = {}
    if kind in ("image",):
        figure["export"] = {"type": "image", "path": out, "format": case["format"]}
        for k, v in zip(("width", "height"), case["size"]):
            if v is not None:
                figure["export"][k] = v
    elif kind in ("html", "fail-dir", "fail-id", "stale", "no-solution"):
        figure["export"] = {"type": "html", "path": out}
    if "export" in figure and case["name"] is not None:
        figure["export"]["file_name"] = case["name"]
    if (kind == "show" or case.get("both")) and case["show"][0] is not None:
        figure["show"] = case["show"][0]
    return figure


def parameters(case):
    kind = case["kind"]
    if (kind == "show" or case.get("both")) and case["show"][1] is not None:
        return {"show": case["show"][1]}
    return {}


def run_case(case, ctx):
    if ROOT is None:
        setup("quick", 0)
    hp = load(plotly=True)
    prob, kind = case["prob"], case["kind"]
    RECORD.clear()
    import plotly.graph_objects as go

    go.Figure = REAL if case["real"] else Light
    out = os.path.join(ROOT, "out")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    figure = figure_settings(case, out)
    settings = build.settings_of(prob, figure=figure)
    if case["late"]:
        p = build.make(prob)
        p.settings = settings
    else:
        p = build.make(prob, settings=settings)
    name = case["name"] or "PlotlyGraph"
    if kind != "no-solution":
        solving.run_op(p, prob, case["ops"][0])
    if kind == "stale":
        i = prob["items"][0][0]
        p.items[i]["w"] += 1
    if kind == "fail-dir":
        os.rmdir(out)
    before = state(p)
    CAPTURE.clear()
    kwargs = parameters(case)
    try:
        p.create_figure(**kwargs)
        error = None
    except Exception as e:  # noqa
        error = e
    check(state(p) == before, "creating the figure changed the problem from {} to {}", before, state(p))
    written = sorted(os.listdir(out)) if os.path.isdir(out) else []
    warnings = CAPTURE.of("WARNING")
    if kind in ("no-solution", "stale"):
        check(error is None and written == [] and not RECORD, "figure without solution: {!r}, files {}", error, written)
        check(warnings, "figure without solution: no warning")
        ctx.mark()
    elif kind == "no-operation" or (kind == "show" and not shown(case)):
        check(error is None and written == [] and not RECORD, "figure with nothing to do: {!r}, files {}, calls {}", error, written, len(RECORD))
        check(warnings, "figure with nothing to do: no warning")
        ctx.mark()
    elif kind in ("fail-dir", "fail-id"):
        if kind == "fail-id" and not any("/" in c[0] or len(c[0]) > 250 for c in prob["containers"] or []):
            raise Skip("no id that can't be a file name")
        check(type(error) is hp.exceptions.FigureExportError, "failing export gave {!r}", error)
        ctx.mark()
    else:
        check(error is None, "create_figure raised {}: {}", type(error).__name__, error)
        good(case, p, prob, kind, name, out, written, ctx)
        if case.get("again"):
            RECORD.clear()
            if case["again"] == "edited":
                # another solution replaces the one exported before
                i = list(p.items)[-1]
                p.items[i] = {"w": p.items[i]["l"] + 1, "l": p.items[i]["w"]}
                p.items[build.unused(prob["items"], "one more")] = {"w": 1, "l": 1}
                if case["late"] and len(p.items) > 2:
                    del p.items[list(p.items)[0]]
                sut("solve", p.solve)
            for other in case.get("others") or [case]:
                RECORD.clear()
                if other is not case:
                    for f in os.listdir(out):
                        os.remove(os.path.join(out, f))
                    figure = figure_settings(other, out)
                    if other["in place"]:
                        p.settings["figure"] = figure
                        sut("validate_settings", p.validate_settings)
                    else:
                        p.settings = build.settings_of(prob, figure=figure)
                sut("create_figure", p.create_figure, **parameters(other))
                good(other, p, prob, other["kind"], other["name"] or "PlotlyGraph", out, sorted(os.listdir(out)), ctx)
            ctx.label("exported again, " + case["again"])
    ctx.label("kind " + kind)
    ctx.label("exported and shown", bool(case.get("both")) and shown(case) and error is None)
    ctx.label("real plotly", case["real"])
    ctx.label("strip", bool(prob["strip"]))


def shown(case):
    a, b = case["show"]
    return a if a is not None else bool(b)


def shows(case, conts, records):
    """What was shown while exporting."""
    wanted = bool(case.get("both")) and shown(case)
    check(len(records) == (len(conts) if wanted else 0), "{} figures of {} containers shown, {}", len(records), len(conts), "asked for" if wanted else "unasked")


def good(case, p, prob, kind, name, out, written, ctx):
    conts = build.plain_containers(p)
    sol = build.plain_solution(p)
    figures = {}
    if kind == "html":
        want = sorted(f"{name}__{c}.html" for c, _, _ in conts)
        check(written == want, "files {} instead of {}", written, want)
        shows(case, conts, [r for r in RECORD])
        for c, _, _ in conts:
            figures[c] = newest(os.path.join(out, f"{name}__{c}.html"))[1]
    elif kind == "image":
        want = sorted(os.path.join(out, f"{name}__{c}.{case['format']}") for c, _, _ in conts)
        got = sorted(r[1] for r in RECORD if r[0] == "image")
        check(got == want and written == [], "images {} instead of {}", got, want)
        size = tuple(v or 1700 for v in case["size"])
        shows(case, conts, [r for r in RECORD if r[0] != "image"])
        for r in RECORD:
            if r[0] != "image":
                continue
            check(r[2] == size, "image of size {} instead of {}", r[2], size)
            for c, _, _ in conts:
                if r[1] == os.path.join(out, f"{name}__{c}.{case['format']}"):
                    figures[c] = r[3]["layout"]
    else:
        check(written == [] and len(RECORD) == len(conts), "{} containers but {} figures shown, files {}", len(conts), len(RECORD), written)
        for (c, _, _), r in zip(conts, RECORD):
            figures[c] = r[1]["layout"]
    drawn = 0
    for c, W, L in conts:
        if prob["strip"]:
            # the container drawn: at least the items, at most the strip
            L = max([v[1] + v[3] for v in sol[c].values()] + [p.container_min_height or 0])
        compare(figures[c], sol[c], W, L, c)
        drawn += len(sol[c])
    ctx.mark(drawn >= 2)
    ctx.label("over 1000 items", drawn > 1000)
