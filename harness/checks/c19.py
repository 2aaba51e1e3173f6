"""C19 Figure settings are accepted exactly when valid."""
import os
import sys
import types

import apiops
import build
import gen
from core import check, load

RULE = (
    "figure settings: documented ones, and ones with up to two faults at any place (types, unknown values, missing keys, paths that do not "
    "exist or are files, names and formats at the edges of what is allowed, sizes), under plotly and kaleido missing or of versions around "
    "the minimum, given at instantiation, by assignment by explicit validation, or by changing valid ones in place and validating again, on problems of every kind (a quarter; strips, many containers, solved or not) with other settings beside; non-trivial: the settings hold an export, or the "
    "versions are decisive"
)
ASSUMPTIONS = [
    "plotly and kaleido are stand-in modules with a version; plotly 6 and kaleido 1 (which the library refuses) are not generated",
    "booleans as sizes are not generated",
]
CONFIG = {
    "quick": {"budget_s": 10, "max_examples": 10**6},
    "thorough": {"budget_s": 300, "max_examples": 10**8},
}
OK_CHARS = "azAZ09_-mQ5"
BAD_CHARS = (" ", ".", "/", "\\", "\u00e9", "\u03b1", "+", "(", "$", "\t", "\u0660", ",", ":", "*", "@", "\u017f")
PLOTLY = ("5.14.0", "5.14.1", "5.15.0", "5.24.1", "5.20.0", "5.100.0", "5.14.10")
PLOTLY_OLD = ("5.13.9", "5.13.0", "5.9.0", "4.14.3", "5.2.1", "4.99.0", "3.20.0", "0.1.0", "5.3.14", "5.13.100")
KALEIDO = ("0.2.1", "0.2.2", "0.2.10", "0.2.1.post1")
KALEIDO_OLD = ("0.2.0", "0.1.0", "0.0.3", "0.1.9", "0.0.10", "0.1.10")


def strategy(tier):
    return gen.cases(decode)


def decode(s):
    case = {
        "plotly": s.choice((s.choice(PLOTLY),) * 7 + (s.choice(PLOTLY_OLD),) * 2 + (None,)),
        "kaleido": s.choice((s.choice(KALEIDO),) * 4 + (s.choice(KALEIDO_OLD), None)),
        "how": s.choice(("new", "new", "assign", "assign", "validate", "changed", "changed")),
        "before": s.below(6),
        "hp": s.flag(),
    }
    fig = [figure(s)]
    if s.chance(12):
        fig = [s.choice((None, [], 5, "show", {"$": "t", "v": []}, {"$": "o"}, True, [["show", True]]))]
    elif s.chance(20):
        fig = []
    case["figure"] = [apiops.disguised(s, x) for x in fig]
    case["with"] = {"rotation": True}
    if s.chance(3):
        case["with"] = {k: apiops.good_setting(s, k) for k in ("rotation", "max_time_in_seconds", "workers_num") if s.flag()}
    if s.chance(4):
        # the problem they are set for, and its solution, do not matter
        case["prob"] = dict(gen.problem(s, mix=("micro", "tiny", "small", "small", "mid", "wide"), max_items=30), past=None)
        case["solved"] = s.flag()
    return case


def file_name(s):
    n = s.choice((1, 2, 5, 44, 45))
    name = "".join(s.choice(OK_CHARS) for _ in range(n))
    k = s.below(6)
    if k == 0:
        return s.choice(("", "a" * 46, "_" * 60, "ab" * 50, 5, [], 0, {"$": "b", "v": "abc"}, {"$": "t", "v": ["a"]}, {"$": "o"}, 1.5))
    if k == 1:
        at = s.between(0, n - 1)
        return (name[:at] + s.choice(BAD_CHARS) + name[at + 1 :])[:45]
    if k == 2 and s.chance(3):
        return name + s.choice(("\n", "\n", " ", "\r", "\n\n", "\0", "\u2028"))
    return name


def size(s):
    if s.chance(3):
        return s.choice((0, -1, 1.0, 100.0, "100", [], {"$": "o"}, 0.5, {"$": "n"}, -(10**9), ""))
    return s.choice((1, 2, 100, 1700, 10**6, None))


def figure(s):
    pairs = []
    if s.below(5):
        pairs.append(["export", export(s)])
    if s.chance(3):
        pairs.append(["show", s.choice((True, False, True, False)) if s.below(3) else s.choice((0, 1, None, "True", [], {"$": "o"}, "", 1.0, D_EMPTY))])
    if s.chance(12):
        pairs.append([s.choice(("other", "Export", "")), 1])
    return {"$": "d", "v": s.perm(pairs)}


ODD_PATHS = ("long name", "long path", "null", "surrogate", "file/", "file/..", "dir/", "dir/.", "dir/..", "newline", "space", "link", "broken link", "loop", "rel", "rel/in", "rel in", "rel none", "rel dot", "rel ..", "rel up", "rel file", "tilde")
D_EMPTY = {"$": "d", "v": []}


def export(s):
    if s.chance(14):
        return s.choice((None, [], "html", 5, D_EMPTY, {"$": "t", "v": []}, True, {"$": "o"}, [["type", "html"]]))
    pairs = {}
    kind = s.choice(("html", "image"))
    pairs["type"] = kind
    pairs["path"] = {"$": "path", "v": "dir"}
    if kind == "image" or s.chance(4):
        pairs["format"] = s.choice(("pdf", "png", "jpeg", "webp", "svg"))
    if s.below(3):
        pairs["file_name"] = file_name(s) if s.chance(2) else "figure-1"
    for k in ("width", "height"):
        if s.chance(3):
            pairs[k] = size(s)
    for _ in range(s.choice((0, 0, 0, 1, 1, 2))):
        k = s.choice(("type", "path", "format", "gone", "file_name"))
        if k == "type":
            pairs[k] = s.choice(("htm", "HTML", "Image", "images", "png", "", 5, [], None, {"$": "t", "v": ["html"]}, {"$": "b", "v": "html"}, "html ", "svg", True))
        elif k == "path":
            pairs[k] = s.choice(
                ({"$": "path", "v": "none"}, {"$": "path", "v": "file"}, {"$": "path", "v": "dir/none"}, {"$": "path", "v": "object"}, {"$": "path", "v": "bytes"}, {"$": "path", "v": s.choice(ODD_PATHS)}, None, 5, [], {"$": "o"}, {"$": "path", "v": "gone"})
            )
        elif k == "format":
            pairs[k] = s.choice(("jpg", "PNG", "gif", "", "html", ".png", None, 5, ["png"], {"$": "t", "v": ["png"]}, {"$": "b", "v": "png"}, "png ", "eps", "p", "sv", "pdf,png"))
        elif k == "file_name":
            pairs[k] = file_name(s)
        else:
            g = s.choice(sorted(pairs))
            pairs.pop(g)
    return {"$": "d", "v": s.perm([[a, b] for a, b in pairs.items()])}


class Places:
    def __init__(self, root):
        import pathlib

        self.root = root
        self.dir = os.path.join(root, "dir")
        os.makedirs(os.path.join(self.dir, "inner"), exist_ok=True)
        self.file = os.path.join(root, "file")
        open(self.file, "w").close()
        self.values = {
            "dir": self.dir,
            "none": os.path.join(root, "none"),
            "file": self.file,
            "dir/none": os.path.join(self.dir, "none"),
            "object": pathlib.Path(self.dir),
            "bytes": self.dir.encode(),
            "gone": os.path.join(root, "gone", "x"),
            "long name": os.path.join(self.dir, "n" * 300),
            "long path": "/".join([self.dir] + ["n" * 200] * 30),
            "null": self.dir + "\0",
            "surrogate": self.dir + "\ud800",
            "file/": self.file + "/",
            "file/..": self.file + "/..",
            "dir/": self.dir + "/",
            "dir/.": self.dir + "/.",
            "dir/..": self.dir + "/..",
            "newline": self.dir + "\n",
            "space": " " + self.dir,
            # relative ones: the working directory is the root of these
            "rel": "dir",
            "rel/in": "dir/inner",
            "rel in": "inner",
            "rel none": "inner/dir",
            "rel dot": "./dir",
            "rel ..": "dir/..",
            "rel up": "..",
            "rel file": "file",
            "tilde": "~",
            "link": self.link("link", self.dir),
            "broken link": self.link("broken", os.path.join(root, "none")),
            "loop": self.link("loop", os.path.join(root, "loop")),
        }

    def link(self, name, to):
        path = os.path.join(self.root, name)
        if not os.path.islink(path):
            os.symlink(to, path)
        return path


PLACES = None


def setup(tier, index):
    global PLACES
    load()
    root = os.path.join(os.environ.get("VERIF_SCRATCH") or "/tmp", f"c19-{os.getpid()}")
    os.makedirs(root, exist_ok=True)
    PLACES = Places(root)


def teardown():
    import shutil

    if PLACES and PLACES.root.startswith("/tmp/"):
        shutil.rmtree(PLACES.root, ignore_errors=True)


def value(x):
    """apiops.val with paths."""
    if isinstance(x, dict) and x["$"] == "path":
        return PLACES.values[x["v"]]
    if isinstance(x, dict) and x["$"] == "d":
        return {value(k): value(v) for k, v in x["v"]}
    if isinstance(x, dict) and x["$"] == "as":
        return apiops.in_disguise(value(x["v"]), x["k"])
    if isinstance(x, dict) and "v" in x and x["$"] == "t":
        return tuple(value(v) for v in x["v"])
    return apiops.val(x)


def version(v):
    return tuple(int(x) for x in v.split(".")[:3])


def fault(fig, plotly, kaleido):
    """None when the figure settings are valid, otherwise why not."""
    if not isinstance(fig, dict):
        return "figure is no dictionary"
    if not fig:
        return None
    if plotly is None or version(plotly) < (5, 14, 0):
        return "plotly"
    if "show" in fig and not isinstance(fig["show"], bool):
        return "show"
    if "export" not in fig:
        return None
    ex = fig["export"]
    if not isinstance(ex, dict):
        return "export"
    kind = ex.get("type")
    if not isinstance(kind, str) or kind not in ("html", "image"):
        return "type"
    path = ex.get("path")
    if not isinstance(path, str) or not os.path.isdir(path):
        return "path"
    if kind == "image":
        f = ex.get("format")
        if not isinstance(f, str) or f not in ("pdf", "png", "jpeg", "webp", "svg"):
            return "format"
        if kaleido is None or version(kaleido) < (0, 2, 1):
            return "kaleido"
    name = ex.get("file_name")
    if name is not None:
        ok = isinstance(name, str) and 1 <= len(name) <= 45
        if not ok or not all(c.isascii() and (c.isalnum() or c in "_-") for c in name):
            return "file_name"
    for k in ("width", "height"):
        v = ex.get(k)
        if v is not None and (not isinstance(v, int) or v <= 0):
            return k
    return None


def stand_in(name, ver):
    if ver is None:
        sys.modules[name] = None  # importing it raises ImportError
    else:
        m = types.ModuleType(name)
        m.__version__ = ver
        sys.modules[name] = m


def run_case(case, ctx):
    if PLACES is None:
        setup("quick", 0)
    hp = load()
    cls = hp.HyperPack if case["hp"] else hp.PointGenPack
    if any(x in str(case["figure"]) for x in ("rel", "tilde")):
        here = os.getcwd()
        os.chdir(PLACES.root)
        try:
            decide(case, ctx, hp, cls)
        finally:
            os.chdir(here)
    else:
        decide(case, ctx, hp, cls)


def changed(p, case, settings):
    """Valid settings (with the same objects as far as can be) changed in place, and validated again."""
    plain = {"type": "html", "path": PLACES.dir, "file_name": "before"}
    k = case.get("before", 0)
    now = settings.get("figure")
    first = {"figure": {"export": dict(plain)}, "rotation": True} if k % 3 else {"figure": {"show": False}}
    with_both(lambda: setattr(p, "settings", first))
    first = p.settings
    fig = first["figure"]
    if k < 4 and isinstance(now, dict):
        # within the figure's dictionary
        ex = fig.get("export")
        new = now.get("export")
        if isinstance(new, dict) and isinstance(ex, dict):
            ex.clear()
            ex.update(new)
            now = dict(now, export=ex)
        fig.clear()
        fig.update(now)
    elif "figure" in settings:
        first["figure"] = settings["figure"]
    else:
        first.pop("figure")
    e, _ = apiops.outcome(p.validate_settings)
    settings.clear()
    settings.update(first)
    return e


def with_both(call):
    """With plotly and kaleido there."""
    saved = {n: sys.modules.get(n) for n in ("plotly", "kaleido")}
    try:
        stand_in("plotly", "5.24.1")
        stand_in("kaleido", "0.2.1")
        call()
    finally:
        sys.modules.update(saved)


def decide(case, ctx, hp, cls):
    settings = {k: apiops.val(v) for k, v in case.get("with", {"rotation": True}).items()}
    if case["figure"]:
        settings["figure"] = value(case["figure"][0])
        why = fault(settings["figure"], case["plotly"], case["kaleido"])
    else:
        why = None
    base = dict(containers={"c": {"W": 2, "L": 2}}, items={"i": {"w": 1, "l": 1}})
    prob = case.get("prob")
    if prob:
        base = build.arguments(prob, prob["items"], prob["containers"], None)
        base.pop("settings")
    saved = {n: sys.modules.get(n) for n in ("plotly", "kaleido")}
    try:
        stand_in("plotly", case["plotly"])
        stand_in("kaleido", case["kaleido"])
        p = None
        if case["how"] == "new":
            e, p = apiops.outcome(cls, settings=settings, **base)
        else:
            p = cls(**base)
            if prob:
                build.apply_state(p, prob)
                if case["solved"]:
                    p.solve()
            if case["how"] == "changed":
                e = changed(p, case, settings)
            elif case["how"] == "assign":
                e, _ = apiops.outcome(setattr, p, "settings", settings)
            else:
                p.settings.update(settings)
                e, _ = apiops.outcome(p.validate_settings)
        got = apiops.exc_name(e)
        if why:
            check(got == "SettingsError", "figure settings with a faulty {} gave {} {}: plotly {}, kaleido {}, {}", why, got, e or "", case["plotly"], case["kaleido"], settings)
        else:
            check(e is None, "valid figure settings raised {} ({}): plotly {}, kaleido {}, {}", got, e, case["plotly"], case["kaleido"], settings)
            fig = p.settings.get("figure", {})
            if "export" in fig:
                given = value(case["figure"][0])["export"].get("file_name")
                name = fig["export"].get("file_name")
                check(name == (given if given is not None else "PlotlyGraph"), "file name is {!r}, given {!r}", name, given)
    finally:
        for n, m in saved.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m
    fig = settings.get("figure")
    ctx.mark(bool(isinstance(fig, dict) and "export" in fig) or why in ("plotly", "kaleido"))
    ctx.label("accepted" if not why else "faulty " + why)
    ctx.label("how " + case["how"])
