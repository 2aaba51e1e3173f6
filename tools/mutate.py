"""Mutation sweep of hyperpack, to find gaps in the checks (a tool for building them, not a check).

python3-vt tools/mutate.py gen OUTDIR            writes the mutants as OUTDIR/mutants.json
python3-vt tools/mutate.py tests OUTDIR [jobs]   runs the repository's tests on each mutant -> tests.jsonl
python3-vt tools/mutate.py checks OUTDIR [jobs]  runs the checks on the survivors, until one notices -> checks.jsonl
Everything happens in scratch copies below OUTDIR.
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import threading

REPO = os.environ.get("MUT_REPO", "/repo")
FILES = ["abstract", "heuristics", "mixins", "processes", "structures", "utils"]
CMP = {ast.Lt: ["<=", ">="], ast.LtE: ["<"], ast.Gt: [">=", "<="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
OPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not",
       ast.In: "in", ast.NotIn: "not in"}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "+"), ast.Div: ("/", "*"), ast.FloorDiv: ("//", "*")}


def mutants_of(path):
    src = open(path).read()
    lines = src.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l) + 1)
    enc = [l.encode() for l in lines]

    def pos(line, col):
        return starts[line - 1] + len(enc[line - 1][:col].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def text(n):
        a, b = span(n)
        return src[a:b]

    tree = ast.parse(src)
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(id(n))
            skip.add(id(n.value))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            t = text(n)
            if "ogger.debug" in t or "ogger.info" in t:
                for m in ast.walk(n):
                    skip.add(id(m))
        if isinstance(n, (ast.FunctionDef, ast.arg)):
            for a in (getattr(n, "returns", None), getattr(n, "annotation", None)):
                if a is not None:
                    for m in ast.walk(a):
                        skip.add(id(m))

    def add(n, a, b, new, kind):
        if src[a:b] != new:
            out.append({"file": path, "line": n.lineno, "a": a, "b": b, "new": new, "old": src[a:b], "kind": kind})

    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for new in CMP[type(n.ops[0])]:
                a, b = span(n)
                add(n, a, b, f"{text(n.left)} {new} {text(n.comparators[0])}", "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n)
            add(n, a, b, f"{text(n.left)} {BIN[type(n.op)][1]} {text(n.right)}", "bin")
            if not isinstance(n.right, ast.Constant):
                add(n, a, b, text(n.left), "left")
        elif isinstance(n, ast.BoolOp):
            a, b = span(n)
            w = " or " if isinstance(n.op, ast.And) else " and "
            add(n, a, b, "(" + w.join(text(v) for v in n.values) + ")", "bool")
            for k in range(len(n.values)):
                rest = [text(v) for j, v in enumerate(n.values) if j != k]
                j = " and " if isinstance(n.op, ast.And) else " or "
                add(n, a, b, "(" + j.join(rest) + ")", "drop")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = span(n)
            add(n, a, b, text(n.operand), "not")
        elif isinstance(n, ast.Constant):
            a, b = span(n)
            v = n.value
            if isinstance(v, bool):
                add(n, a, b, str(not v), "const")
            elif isinstance(v, int):
                add(n, a, b, str(v + 1), "const")
                if v:
                    add(n, a, b, str(v - 1), "const")
            elif isinstance(v, float):
                add(n, a, b, repr(v * 1.5), "const")
        elif isinstance(n, (ast.If, ast.While)):
            a, b = span(n.test)
            add(n, a, b, "True", "cond")
            add(n, a, b, "False", "cond")
        elif isinstance(n, ast.IfExp):
            a, b = span(n)
            add(n, a, b, text(n.body), "ifexp")
            add(n, a, b, text(n.orelse), "ifexp")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Continue, ast.Break, ast.Delete)):
            a, b = span(n)
            add(n, a, b, "pass", "del")
        elif isinstance(n, ast.Return) and n.value is not None:
            a, b = span(n)
            add(n, a, b, "return", "return")
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    a, b = pos(k.lineno, k.col_offset), pos(k.end_lineno, k.end_col_offset)
                    e = b
                    while e < len(src) and src[e] in " \n":
                        e += 1
                    if e < len(src) and src[e] == ",":
                        b = e + 1
                    add(n, a, b, "", "kwarg")
            if len(n.args) == 2 and not n.keywords:
                (a0, b0), (a1, b1) = span(n.args[0]), span(n.args[1])
                add(n, a0, b1, f"{text(n.args[1])}, {text(n.args[0])}", "swap")
    good = []
    seen = set()
    for m in out:
        t = src[: m["a"]] + m["new"] + src[m["b"] :]
        if t in seen:
            continue
        seen.add(t)
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        good.append(m)
    return good


def gen(out):
    os.makedirs(out, exist_ok=True)
    ms = []
    for f in FILES:
        for m in mutants_of(f"{REPO}/hyperpack/{f}.py"):
            m["file"] = f"hyperpack/{f}.py"
            m["id"] = len(ms)
            ms.append(m)
    json.dump(ms, open(f"{out}/mutants.json", "w"), indent=0)
    print(len(ms))


def pool(out, todo, jobs, fn, result):
    lock = threading.Lock()
    it = iter(todo)
    f = open(result, "a")

    def worker(k):
        d = f"{out}/w{k}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run(f"git -C {REPO} archive HEAD | tar -x -C {d}", shell=True, check=True)
        while True:
            with lock:
                m = next(it, None)
            if m is None:
                break
            p = f"{d}/{m['file']}"
            src = open(p).read()
            assert src[m["a"] : m["b"]] == m["old"]
            open(p, "w").write(src[: m["a"]] + m["new"] + src[m["b"] :])
            try:
                r = fn(d, m, k)
            finally:
                open(p, "w").write(src)
            with lock:
                f.write(json.dumps(r) + "\n")
                f.flush()
        shutil.rmtree(d, ignore_errors=True)

    ts = [threading.Thread(target=worker, args=(k,)) for k in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]


def run(cmd, cwd, timeout, env=None):
    import signal

    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, env=env)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        return "timeout", ""
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()


def done(path):
    return {json.loads(l)["id"] for l in open(path)} if os.path.exists(path) else set()


def tests(out, jobs):
    ms = json.load(open(f"{out}/mutants.json"))
    res = f"{out}/tests.jsonl"
    have = done(res)

    def fn(d, m, k):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        rc, o = run(["/opt/venv/bin/python", "-m", "pytest", "-o", "addopts=", "-q", "-x", "--disable-warnings", "-p", "no:cacheprovider", "--timeout=60"], d, 150, env)
        return {"id": m["id"], "rc": rc}

    pool(out, [m for m in ms if m["id"] not in have], jobs, fn, res)


def checks(out, jobs, only=None, every=False, quick=True):
    ms = json.load(open(f"{out}/mutants.json"))
    alive = {json.loads(l)["id"] for l in open(f"{out}/tests.jsonl") if json.loads(l)["rc"] == 0}
    res = f"{out}/checks.jsonl"
    have = done(res)
    every_prop = [f"C{k:02d}" for k in range(1, 39)]
    # the likeliest first
    first = {
        "mixins": "C06 C19 C20 C22 C21 C14 C03 C08 C28 C13 C04 C17 C38",
        "heuristics": "C15 C18 C23 C09 C10 C14 C28 C04 C17",
        "processes": "C10 C11 C13 C12 C25 C34",
        "structures": "C16 C17 C29 C21 C31 C04",
        "abstract": "C27 C12 C08 C28",
        "utils": "C24",
    }

    def fn(d, m, k):
        # a private copy of the harness, so that runs do not share evidence and replays
        v = f"{out}/v{k}"
        shutil.rmtree(v, ignore_errors=True)
        os.makedirs(v)
        subprocess.run(f"cp -r /verif/harness /verif/check {v}/", shell=True, check=True)
        caught, odd = {}, {}
        head = first[os.path.basename(m["file"])[:-3]].split()
        for p in only or head + ([] if quick else [x for x in every_prop if x not in head]):
            env = dict(os.environ, VERIF_REPO=d, VERIF_BUDGET=os.environ.get("MUT_BUDGET", "3"), VERIF_SHARDS="1", VERIF_SEED="7")
            rc, o = run([f"{v}/check", p], v, 400, env)
            if rc == 1 and "VIOLATION" in o:
                caught[p] = [x for x in o.splitlines() if x.startswith(p + ":")][:1]
                if not every:
                    break
            elif rc != 0:
                odd[p] = [rc, o[-300:]]
        shutil.rmtree(v, ignore_errors=True)
        return {"id": m["id"], "caught": caught, "odd": odd}

    pool(out, [m for m in ms if m["id"] in alive and m["id"] not in have], jobs, fn, res)


if __name__ == "__main__":
    what, out = sys.argv[1:3]
    jobs = int(sys.argv[3]) if len(sys.argv) > 3 else 8
    if what == "gen":
        gen(out)
    elif what == "tests":
        tests(out, jobs)
    else:
        checks(out, jobs, sys.argv[4].split(",") if len(sys.argv) > 4 else None, every=len(sys.argv) > 5)
