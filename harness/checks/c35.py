"""C35 Nothing outside the problem is touched."""
import builtins
import decimal
import faulthandler
import gc
import json
import locale
import logging
import multiprocessing
import multiprocessing.context
import os
import random
import resource
import signal
import socket
import sys
import threading
import warnings

import build
import doing
import gen
from core import check, load

RULE = (
    "1-10 operations of every kind, valid and faulty, on a problem (making, editing, settings, strategies, sorting, solving, searches in "
    "one or several processes, logging, copying, figures shown, exported and failing, interruptions); after each, what was written to "
    "standard output and error (workers included), the files opened for writing, created, renamed or removed anywhere (audit hook, workers "
    "included), and the global state (random numbers, environment, working directory, signals, warnings, logging, locale, garbage "
    "collection, limits, hooks) are compared with before; non-trivial: at least three kinds of operations, one of them solving"
)
ASSUMPTIONS = ["temporary files of multiprocessing itself (pymp-*, /dev/shm) and byte code files are not counted", "plotly replaced by a stand-in"]
CONFIG = {
    "quick": {"budget_s": 10, "max_examples": 10**6},
    "thorough": {"budget_s": 200, "max_examples": 10**8},
}
HANG_S = 100
WATCH = [None]
EVENTS = {"os.mkdir", "os.remove", "os.rename", "os.rmdir", "os.symlink", "os.link", "os.truncate", "os.chmod", "os.chown", "os.utime", "shutil.rmtree"}
OUT = [None]


def hook(event, args):
    fd = WATCH[0]
    if fd is None:
        return
    if event == "open":
        path, _, flags = args
        if isinstance(path, int) or not isinstance(flags, int) or not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            return
    elif event not in EVENTS or not args or isinstance(args[0], int):
        return
    count = 2 if event in ("os.rename", "os.symlink", "os.link") else 1
    named = [os.fsdecode(a) if isinstance(a, (str, bytes)) else str(a) for a in args[:count]]
    named = [os.path.abspath(a) for a in named]
    text = json.dumps([event] + named)
    if "/pymp-" in text or "__pycache__" in text or '"/dev/' in text:
        return
    os.write(fd, text.encode() + b"\n")


def setup(tier, index):
    load()
    doing.setup()
    OUT[0] = os.memfd_create("output")
    sys.addaudithook(hook)


teardown = doing.teardown


def strategy(tier):
    return gen.cases(decode)


def decode(s):
    prob = doing.problem(s)
    ops = [doing.operation(s, prob) for _ in range(gen.length(s, 1, 10, 40))]
    return {"prob": prob, "ops": ops, "seed": s.below(10**6), "own": s.flag(), "level": s.choice((None, None, 5, 15, 20, 35, 60))}


def logger_state(name):
    lg = logging.getLogger(name)
    return (lg.level, tuple(map(id, lg.handlers)), tuple(map(id, lg.filters)), lg.propagate, lg.disabled)


def handler(signum, frame):
    raise KeyboardInterrupt


class OwnContext(multiprocessing.context.ForkContext):
    pass


class User:
    """Global state as a user may have set it: not the interpreter's default."""

    def __init__(self, own, level):
        self.own, self.level = own, level

    def __enter__(self):
        self.undo = []
        for name in ("hyperpack", "pointgenpack") if self.level else ():
            lg = logging.getLogger(name)
            self.undo.append((lg.setLevel, lg.level))
            lg.setLevel(self.level)
        if not self.own:
            return
        for sig in (signal.SIGINT, signal.SIGHUP, signal.SIGUSR1):
            self.undo.append((signal.signal, sig, signal.signal(sig, handler)))
        for get, set_, value in (
            (sys.getrecursionlimit, sys.setrecursionlimit, 1777),
            (sys.getswitchinterval, sys.setswitchinterval, 0.0078125),
            (sys.get_int_max_str_digits, sys.set_int_max_str_digits, 5123),
            (socket.getdefaulttimeout, socket.setdefaulttimeout, 77.5),
        ):
            self.undo.append((set_, get()))
            set_(value)
        self.undo.append((gc.set_threshold,) + gc.get_threshold())
        gc.set_threshold(1234, 7, 6)
        self.undo.append((os.umask, os.umask(0o27)))
        self.undo.append((setattr, decimal.getcontext(), "prec", decimal.getcontext().prec))
        decimal.getcontext().prec = 17
        self.undo.append((setattr, logging, "raiseExceptions", logging.raiseExceptions))
        logging.raiseExceptions = False
        self.undo.append((warnings.filters.__setitem__, slice(None), list(warnings.filters)))
        warnings.filters.insert(0, ("always", None, BytesWarning, None, 0))
        if gc.isenabled():
            gc.disable()
            self.undo.append((gc.enable,))
        for name in ("C.UTF-8", "C.utf8"):
            try:
                old = locale.setlocale(locale.LC_NUMERIC)
                locale.setlocale(locale.LC_NUMERIC, name)
                self.undo.append((locale.setlocale, locale.LC_NUMERIC, old))
                break
            except locale.Error:
                pass
        # a start method chosen by the user: behaves as the usual one, but is another object
        default = multiprocessing.context._default_context
        self.undo.append((setattr, default, "_actual_context", default._actual_context))
        default._actual_context = OwnContext()
        os.environ["HYPERPACK_OWN"] = "1"
        self.undo.append((os.environ.pop, "HYPERPACK_OWN"))

    def __exit__(self, *a):
        while self.undo:
            f, *args = self.undo.pop()
            f(*args)


def world():
    umask = os.umask(0o77)
    os.umask(umask)
    root = logging.getLogger()
    return {
        "random state": random.getstate(),
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "umask": umask,
        "signal handlers": {n: signal.getsignal(n) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD, signal.SIGPIPE, signal.SIGALRM, signal.SIGHUP, signal.SIGUSR1)},
        "signal mask": signal.pthread_sigmask(signal.SIG_BLOCK, ()),
        "timer": signal.getitimer(signal.ITIMER_VIRTUAL),
        "module path": list(sys.path),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "digits": sys.get_int_max_str_digits(),
        "hooks": (sys.gettrace(), sys.getprofile(), sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook, sys.stdout, sys.stderr, sys.stdin),
        "locale": locale.setlocale(locale.LC_ALL),
        "warnings": (list(warnings.filters), warnings.showwarning),
        "garbage collection": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), gc.get_freeze_count()),
        "logging": (logger_state("hyperpack"), logger_state("pointgenpack"), root.level, list(root.handlers), root.manager.disable, logging.raiseExceptions, logging.getLoggerClass(), logging.getLogRecordFactory(), logging.lastResort, logging.getLevelName(10), logging.getLevelName(40)),
        "start method": (multiprocessing.get_start_method(), multiprocessing.context._default_context._actual_context),
        "decimal context": repr(decimal.getcontext()),
        "socket timeout": socket.getdefaulttimeout(),
        "builtins": set(vars(builtins)) - {"_"},
        "limits": tuple(resource.getrlimit(r) for r in (resource.RLIMIT_AS, resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_CPU, resource.RLIMIT_DATA)),
        "priority": (os.getpriority(os.PRIO_PROCESS, 0), tuple(sorted(os.sched_getaffinity(0)))),
        "threads": (threading.gettrace(), threading.getprofile(), threading.main_thread().name),
        "plotly defaults": plotly_defaults(),
        "fault handler": faulthandler.is_enabled(),
    }


def plotly_defaults():
    pio = sys.modules.get("plotly.io")
    scope = getattr(getattr(pio, "kaleido", None), "scope", None)
    return [getattr(scope, "default_" + k, None) for k in ("format", "width", "height", "scale")] + [repr(getattr(pio, "templates", None) and pio.templates.default), repr(getattr(getattr(pio, "renderers", None), "default", None))]


class Output:
    """Standard output and error of this process and its children go into a file of ours."""

    def __enter__(self):
        sys.stdout.flush()
        sys.stderr.flush()
        os.ftruncate(OUT[0], 0)
        os.lseek(OUT[0], 0, os.SEEK_SET)
        self.saved = os.dup(1), os.dup(2)
        self.out = os.memfd_create("o")
        os.set_inheritable(self.out, True)
        os.dup2(self.out, 1)
        os.dup2(self.out, 2)
        self.read = 0
        WATCH[0] = OUT[0]
        return self

    def written(self):
        sys.stdout.flush()
        sys.stderr.flush()
        n = os.fstat(self.out).st_size
        return os.pread(self.out, 300, 0).decode("utf-8", "replace") if n else ""

    def events(self):
        n = os.fstat(OUT[0]).st_size
        text = os.pread(OUT[0], n - self.read, self.read).decode("utf-8", "replace")
        self.read = n
        return text.splitlines()

    def __exit__(self, *a):
        WATCH[0] = None
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(self.saved[0], 1)
        os.dup2(self.saved[1], 2)
        for fd in self.saved + (self.out,):
            os.close(fd)


def leftovers():
    return sorted(f"{d}/{n}" for d in ("cwd", "home", "tmp") for n in os.listdir(f"{doing.HOME}/{d}") if not n.startswith("pymp-"))


def run_case(case, ctx):
    load()
    if OUT[0] is None:
        setup("quick", 0)
    prob = case["prob"]
    random.seed(case["seed"])
    multiprocessing.get_start_method()
    with User(case.get("own"), case.get("level")):
        run_operations(case, prob, ctx)


def run_operations(case, prob, ctx):
    before = world()
    for n in os.listdir(f"{doing.HOME}/out"):
        os.remove(f"{doing.HOME}/out/{n}")
    kinds = set()
    with Output() as out:
        p = None
        for n, op in enumerate([{"op": "make"}] + case["ops"]):
            if op["op"] == "make":
                p = build.make(prob)
            else:
                doing.run(p, prob, op)
            where = f"operation {n} {op}"
            text = out.written()
            check(not text, "{} wrote {!r}", where, text)
            for e in out.events():
                what, *paths = json.loads(e)
                fine = op["op"] in ("export", "fail") and what in ("open", "os.remove", "os.rename") and all(x.startswith(f"{doing.HOME}/out/") for x in paths)
                check(fine, "{}: {}", where, e)
            now = world()
            for k in before:
                check(now[k] == before[k], "{} changed the {}: {} -> {}", where, k, str(before[k])[:200], str(now[k])[:200])
            left = leftovers()
            check(not left, "{} left {}", where, left)
            kinds.add("structure" if "on" in op else op["op"])
            ctx.label("operation " + ("structure" if "on" in op else op["op"]) + (" mp" if op.get("workers", 1) > 1 else ""))
    ctx.mark(len(kinds) > 3 and kinds & {"solve", "ls", "hs"})
