"""Watches the solves a search makes, through the public classes only."""
import contextlib

import build


class Recorder:
    """Wraps HyperPack.solve (falling back on _solve) and records every evaluation.

    entries: dicts with instance, sequence, strategy, height (strip) at the call, and the
    solution and values the call gave. If a refactored search no longer evaluates through
    these methods, nothing is recorded and `seen` stays 0.
    """

    def __init__(self, cls, on_start=None, on_end=None, keep=True):
        self.cls = cls
        self.entries = []
        self.seen = 0
        self.depth = 0
        self.on_start = on_start
        self.on_end = on_end
        self.keep = keep

    def __enter__(self):
        rec = self
        self.saved = []
        for name in ("solve", "_solve"):
            orig = getattr(self.cls, name, None)
            if orig is None:
                continue
            had = name in self.cls.__dict__

            def wrapped(self_, *a, _orig=orig, _name=name, **k):
                if rec.depth:
                    return _orig(self_, *a, **k)
                rec.depth += 1
                rec.seen += 1
                seq = k.get("sequence", a[0] if a else None)
                entry = {
                    "instance": id(self_),
                    "sequence": list(seq) if seq is not None else None,
                    "strategy": tuple(self_.potential_points_strategy),
                    "height": self_.container_height,
                }
                if rec.on_start:
                    rec.on_start(entry, self_)
                try:
                    out = _orig(self_, *a, **k)
                finally:
                    rec.depth -= 1
                if _name == "solve":
                    sol, vals = self_.solution, self_.obj_val_per_container
                else:
                    sol, vals = out
                entry["solution"] = {c: {i: list(v) for i, v in x.items()} for c, x in sol.items()}
                entry["values"] = dict(vals)
                if rec.keep:
                    rec.entries.append(entry)
                if rec.on_end:
                    rec.on_end(entry, self_)
                return out

            self.saved.append((name, orig, had))
            setattr(self.cls, name, wrapped)
        return self

    def __exit__(self, *exc):
        for name, orig, had in self.saved:
            if had:
                setattr(self.cls, name, orig)
            else:
                delattr(self.cls, name)
        return False


@contextlib.contextmanager
def nothing():
    yield None


def objective(values):
    """The overall objective of recorded container values."""
    vals = list(values.values())
    if len(vals) <= 1:
        return sum(vals)
    return sum(vals[:-1]) + 0.7 * vals[-1]


def solved_objective(prob, items, seq, pp):
    """Objective value, solution and values of one solve on a fresh instance."""
    q = dict(prob, items=items, pp=pp)
    p = build.make(q, fresh=True)
    p.solve(sequence=seq)
    return p.calculate_obj_value(), build.plain_solution(p), dict(p.obj_val_per_container)
