"""Figures without a browser: the shapes that create_figure would show."""
import json

import apiops
from core import load


class Light:
    """Collects the shapes of a figure; the real one takes time quadratic in their number."""

    def __init__(self, data=None, layout=None, **k):
        self.shapes = list((layout or {}).get("shapes", []))
        self.axes = {"xaxis": {}, "yaxis": {}}

    def add_shape(self, arg=None, **k):
        self.shapes.append(dict(arg or {}, **k))

    def update_layout(self, arg=None, **k):
        new = dict(arg or {}, **k)
        self.shapes += list(new.get("shapes", []))
        for axis in self.axes:
            if isinstance(new.get(axis), dict):
                self.axes[axis].update(new[axis])

    def update_xaxes(self, patch=None, *a, **k):
        self.axes["xaxis"].update(patch or {}, **k)

    def update_yaxes(self, patch=None, *a, **k):
        self.axes["yaxis"].update(patch or {}, **k)

    def layout_shown(self):
        ranges = {axis: {"range": list(v["range"])} for axis, v in self.axes.items() if v.get("range") is not None}
        return {"shapes": self.shapes, **ranges}

    def to_json(self):
        return json.dumps({"data": [], "layout": self.layout_shown()})

    def write_html(self, file, *a, **k):
        with open(file, "w", encoding="utf-8") as f:
            f.write('Plotly.newPlot("id", [], ' + json.dumps(self.layout_shown()) + ", {})")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: self


class Shown(Light):
    DRAWN = []

    def show(self, *a, **k):
        # item labels and their corners
        self.DRAWN.append([[(x.get("label") or {}).get("text"), x.get("x0"), x.get("y0"), x.get("x1"), x.get("y1")] for x in self.shapes])


def setup(tier=None, index=None):
    load(plotly=True)
    try:
        import plotly.graph_objects  # noqa
    except ImportError:
        pass


def drawn(p):
    """[name of the exception or None, the shapes of every figure shown]"""
    setup()
    try:
        import plotly.graph_objects as go
    except ImportError:
        return [None, []]
    saved, go.Figure = go.Figure, Shown
    Shown.DRAWN.clear()
    try:
        e, _ = apiops.outcome(p.create_figure, show=True)
    finally:
        go.Figure = saved
    return [apiops.exc_name(e), list(Shown.DRAWN)]
