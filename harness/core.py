"""Common definitions: violations, labels, guarded calls, loading of the code under test."""
import collections
import contextlib
import json
import logging
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VENV_SITE = "/opt/venv/lib/python3.12/site-packages"


class Violation(Exception):
    """The code under test broke the property."""


class Skip(Exception):
    """The case says nothing about the property (counted, never silent)."""


class Ctx:
    """Collects what a case exercised; one per case."""

    def __init__(self):
        self.labels = collections.Counter()
        self.nontrivial = False

    def label(self, name, cond=True):
        if cond:
            self.labels[name] += 1

    def mark(self, cond=True):
        """The case is non-trivial by the check's rule."""
        if cond:
            self.nontrivial = True


def fail(msg):
    raise Violation(msg)


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def sut(what, fn, *args, **kwargs):
    """Calls the code under test; any exception it was not expected to raise is a violation."""
    try:
        return fn(*args, **kwargs)
    except (Violation, Skip, MemoryError):
        raise
    except Exception as e:  # noqa
        raise Violation(f"{what} raised {type(e).__name__}: {e}") from e


class LogCapture(logging.Handler):
    def __init__(self):
        super().__init__(level=logging.DEBUG)
        self.records_list = []

    def emit(self, record):
        if len(self.records_list) > 100000:
            del self.records_list[:50000]
        self.records_list.append((record.name, record.levelname, record.getMessage()))

    def clear(self):
        self.records_list.clear()

    def of(self, level):
        return [m for n, l, m in self.records_list if l == level and n == "hyperpack"]


CAPTURE = LogCapture()
_loaded = None


def load(plotly=False):
    """Imports hyperpack from the working tree of the repository."""
    global _loaded
    if plotly and VENV_SITE not in sys.path:
        sys.path.append(VENV_SITE)
    if _loaded is None:
        sys.dont_write_bytecode = True
        sys.path.insert(0, REPO)
        import hyperpack

        where = os.path.realpath(hyperpack.__file__)
        if not where.startswith(os.path.realpath(REPO) + os.sep):
            raise RuntimeError(f"hyperpack imported from {where}, not from {REPO}")
        for name in ("hyperpack", "pointgenpack"):
            lg = logging.getLogger(name)
            lg.addHandler(CAPTURE)
            lg.propagate = False
            if os.environ.get("VERIF_LOG_LEVEL"):
                lg.setLevel(os.environ["VERIF_LOG_LEVEL"])
        _loaded = hyperpack
    CAPTURE.clear()
    return _loaded


def dumps(obj):
    return json.dumps(obj, sort_keys=True, ensure_ascii=True)


@contextlib.contextmanager
def quiet_stdout():
    with open(os.devnull, "w") as f, contextlib.redirect_stdout(f):
        yield
