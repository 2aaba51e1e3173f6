"""Drives one check: shards, seeds, budgets, shrinking, replay files and evidence."""
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback

import shrink
from core import REPO, Ctx, Skip, Violation, dumps

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = sys.executable
SHARDS = int(os.environ.get("VERIF_SHARDS", "8"))


def environment(index):
    """Shards differ in string hashing, in the library's log level and in whether Python optimizes."""
    env = {"PYTHONHASHSEED": str(index), "VERIF_LOG_LEVEL": {1: "DEBUG", 3: "INFO", 5: "DEBUG"}.get(index % 8, "")}
    env["PYTHONOPTIMIZE"] = "1" if index % 8 in (2, 5) else ""
    return env


class StopRun(KeyboardInterrupt):
    """Ends a Hypothesis run early: a time budget is used up."""


def load_check(prop):
    return importlib.import_module(f"checks.{prop.lower()}")


class Hang(BaseException):
    """Raised by the watchdog inside a case that does not end."""


HANG = "did not terminate"
CRASH = "unexpected exception"


def _alarm(signum, frame):
    raise Hang


def run_one(mod, case):
    """Runs one case. Returns (ctx, message or None).

    A case that normally takes milliseconds and is still running after HANG_S
    seconds is a violation of the termination every property presupposes.
    """
    ctx = Ctx()
    hang_s = getattr(mod, "HANG_S", 240)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, hang_s)
    try:
        mod.run_case(case, ctx)
    except Violation as e:
        return ctx, str(e)
    except Hang:
        _end_children()
        return ctx, f"{HANG} within {hang_s} s"
    except Skip as e:
        ctx.label("skipped: " + str(e))
        ctx.nontrivial = False
    except Exception as e:
        # raised where no exception is expected: by the library, or by the check because a
        # result is not of the form that every result has
        tb = traceback.extract_tb(e.__traceback__)
        ours = os.path.join(os.path.realpath(REPO), "hyperpack") + os.sep
        inside = [f for f in tb if os.path.realpath(f.filename).startswith(ours)]
        if not inside and isinstance(e, (MemoryError, OSError)):
            raise
        f = (inside or tb)[-1]
        return ctx, f"{CRASH}: {type(e).__name__}: {e} ({os.path.basename(f.filename)} line {f.lineno}, {f.name})"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return ctx, None


def real(msg):
    """While minimising: a candidate that is no valid case says nothing."""
    return None if msg and msg.startswith(CRASH) else msg


def _end_children():
    import multiprocessing

    for p in multiprocessing.active_children():
        p.kill()
        p.join(5)


# ------------------------------------------------------------------ shard


def shard_main(prop, tier, seed, index, shards, out):
    res = {
        "evaluations": 0,
        "hashes": [],
        "labels": {},
        "samples": [],
        "violation": None,
        "error": None,
        "truncated": False,
    }
    try:
        _shard(prop, tier, seed, index, shards, res)
    except BaseException:  # noqa  harness error
        res["error"] = traceback.format_exc()
    with open(out, "w") as f:
        json.dump(res, f)
    sys.stdout.flush()
    os._exit(0)


def _shard(prop, tier, seed, index, shards, res):
    mod = load_check(prop)
    if hasattr(mod, "setup"):
        mod.setup(tier, index)
    cfg = mod.CONFIG[tier]
    budget = float(os.environ.get("VERIF_BUDGET", cfg["budget_s"]))
    shrink_budget = float(cfg.get("shrink_s", 25 if tier == "quick" else 60))
    t0 = time.monotonic()
    hashes = set()
    history = []
    best = {}  # smallest failing case

    def execute(case, source):
        if best:
            if time.monotonic() > best["deadline"]:
                raise StopRun
        elif time.monotonic() - t0 > budget:
            res["truncated"] = True
            raise StopRun
        text = dumps(case)
        case = json.loads(text)  # exactly what a replay will see
        began = time.monotonic()
        ctx, msg = run_one(mod, case)
        res["slowest_s"] = round(max(res.get("slowest_s", 0), time.monotonic() - began), 2)
        res["evaluations"] += 1
        for k, v in ctx.labels.items():
            res["labels"][k] = res["labels"].get(k, 0) + v
        if ctx.nontrivial:
            h = hashlib.sha1(text.encode()).hexdigest()[:16]
            if h not in hashes:
                hashes.add(h)
                if len(res["samples"]) < 2 and len(text) < 1500:
                    res["samples"].append(case)
        if msg is None:
            if not best:
                history.append(text)
            return
        if not best:
            best["deadline"] = time.monotonic() + (0 if msg.startswith(HANG) else shrink_budget)
            best["first"] = text
            best["history"] = list(history)
        if "text" not in best or len(text) < len(best["text"]):
            best["text"], best["msg"] = text, msg
        raise Violation(msg)

    # committed regression cases and enumerated cases, dealt out over the shards
    fixed = load_regressions(prop) + list(
        mod.enumerated(tier) if hasattr(mod, "enumerated") else []
    )
    try:
        for n, case in enumerate(fixed):
            if n % shards == index:
                try:
                    execute(case, "fixed")
                except Violation:
                    break
        if not best and hasattr(mod, "strategy"):
            _hypothesis(mod, tier, seed * 1000 + index, cfg, execute)
    except StopRun:
        pass
    res["hashes"] = sorted(hashes)
    if best and not best["msg"].startswith((HANG, CRASH)):
        end = time.monotonic() + shrink_budget
        out = shrink.minimise(
            json.loads(best["text"]),
            lambda c: real(run_one(mod, json.loads(dumps(c)))[1]),
            getattr(mod, "shrink", None),
            lambda: time.monotonic() > end,
        )
        if out and len(dumps(out[0])) <= len(best["text"]):
            best["text"], best["msg"] = dumps(out[0]), out[1]
    if hasattr(mod, "teardown"):
        mod.teardown()
    if best:
        res["violation"] = {
            "case": json.loads(best["text"]),
            "first": json.loads(best["first"]),
            "message": best["msg"],
            "history": [json.loads(h) for h in best["history"][-300:]],
            "environment": environment(index),
        }


def _hypothesis(mod, tier, seed, cfg, execute):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    hypothesis.configuration.set_hypothesis_home_dir("/dev/null/none")

    @hypothesis.seed(seed)
    @settings(
        max_examples=cfg["max_examples"],
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        print_blob=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink) if getattr(mod, "HYPOTHESIS_SHRINK", False) else (Phase.generate,),
    )
    @given(mod.strategy(tier))
    def prop_test(case):
        execute(case, "generated")

    try:
        prop_test()
    except Violation:
        pass
    except StopRun:
        raise
    except hypothesis.errors.Flaky:
        pass
    except BaseExceptionGroup as eg:
        if not any(isinstance(e, (Violation, hypothesis.errors.Flaky)) for e in eg.exceptions):
            raise


# ------------------------------------------------------------------ replay


def regressions_dir(prop):
    return os.path.join(VERIF, "regressions", prop)


def load_regressions(prop):
    d = regressions_dir(prop)
    cases = []
    if os.path.isdir(d):
        for name in sorted(os.listdir(d)):
            if name.endswith(".json"):
                with open(os.path.join(d, name)) as f:
                    cases.append(json.load(f)["case"])
    return cases


def replay(path):
    with open(path) as f:
        data = json.load(f)
    env = data.get("environment", {})
    if any(os.environ.get(k, "") != v for k, v in env.items()):
        os.execve(PY, [PY, os.path.join(HERE, "main.py"), "replay", path], dict(os.environ, **env))
    prop = data["property"]
    mod = load_check(prop)
    if hasattr(mod, "setup"):
        mod.setup("quick", 0)
    for case in data.get("history", []):
        run_one(mod, case)
    ctx, msg = run_one(mod, data["case"])
    if hasattr(mod, "teardown"):
        mod.teardown()
    sys.stdout.flush()
    if msg:
        print(f"replay: property={prop} broken: {msg}", flush=True)
        os._exit(1)
    print(f"replay: property={prop} held", flush=True)
    os._exit(0)


def _replay_fails(path, timeout=150):
    try:
        r = subprocess.run(
            [PY, os.path.join(HERE, "main.py"), "replay", path],
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
            timeout=timeout,
        )
    except subprocess.TimeoutExpired:
        return True
    return r.returncode == 1


# ------------------------------------------------------------------ parent


def known_findings(prop):
    """Findings recorded instead of repaired: lines 'finding: property=<id> key=<key> <what>'."""
    path = os.path.join(VERIF, "known_findings.txt")
    found = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("finding:") and f"property={prop} " in line:
                    found.append(line.split(f"property={prop} ", 1)[1].strip())
    return found


def main(prop, tier, seed):
    t0 = time.monotonic()
    mod = load_check(prop)
    cfg = mod.CONFIG[tier]
    shards = cfg.get("shards", SHARDS)
    scratch = os.path.join("/tmp", f"verif-{prop}-{os.getpid()}")
    os.makedirs(scratch)
    env = dict(os.environ, VERIF_SCRATCH=scratch, PYTHONDONTWRITEBYTECODE="1")
    procs = []
    try:
        for i in range(shards):
            out = os.path.join(scratch, f"shard{i}.json")
            err = open(os.path.join(scratch, f"shard{i}.err"), "w")
            p = subprocess.Popen(
                [PY, os.path.join(HERE, "main.py"), "shard", prop, tier, str(seed), str(i), str(shards), out],
                stdout=subprocess.DEVNULL,
                stderr=err,
                env=dict(env, **environment(i)),
                start_new_session=True,
            )
            procs.append((p, out, err))
        hard = float(os.environ.get("VERIF_BUDGET", cfg["budget_s"])) + cfg.get("grace_s", 240)
        results, errors = [], []
        for i, (p, out, err) in enumerate(procs):
            try:
                p.wait(max(1, hard - (time.monotonic() - t0)))
            except subprocess.TimeoutExpired:
                errors.append(f"shard {i} exceeded {hard:.0f} s")
            _kill_group(p)
            if os.path.exists(out):
                with open(out) as f:
                    try:
                        r = json.load(f)
                    except ValueError:
                        errors.append(f"shard {i} wrote no complete result")
                        continue
                results.append(r)
                if r["error"]:
                    errors.append(f"shard {i}:\n{r['error']}")
            elif not errors:
                with open(err.name) as f:
                    errors.append(f"shard {i} died (rc {p.returncode}):\n{f.read()[-3000:]}")
        return _report(prop, mod, tier, seed, results, errors, t0)
    finally:
        for p, _, err in procs:
            _kill_group(p)
            err.close()
        subprocess.run(["rm", "-rf", scratch])


def _kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        p.wait(10)
    except subprocess.TimeoutExpired:
        pass


def _report(prop, mod, tier, seed, results, errors, t0):
    hashes, labels, samples = set(), {}, []
    evaluations = 0
    for r in results:
        evaluations += r["evaluations"]
        hashes.update(r["hashes"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
    for k in range(2):
        for r in results:
            if k < len(r["samples"]) and len(samples) < 5:
                samples.append(r["samples"][k])
    violations = [r["violation"] for r in results if r["violation"]]
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(hashes),
            "rule": mod.RULE,
            "samples": samples,
            "labels": dict(sorted(labels.items())),
            "shards": len(results),
            "slowest_case_s": max(r.get("slowest_s", 0) for r in results),
            "shards_ended_by_time_budget": sum(bool(r["truncated"]) for r in results),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": 0.0,
        "violations": len(violations),
    }
    if hasattr(mod, "coverage_extra"):
        evidence["coverage"].update(mod.coverage_extra(labels))

    code, lines = 0, []
    if violations:
        violations.sort(key=lambda v: len(dumps(v["case"])))
        v = violations[0]
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{tier}-{seed}.json")

        def write(case, history):
            with open(path, "w") as f:
                json.dump(
                    {"property": prop, "message": v["message"], "environment": v["environment"], "history": history, "case": case},
                    f,
                    indent=1,
                )

        # smallest form that still fails in a fresh process
        for case, history in ((v["case"], []), (v["first"], []), (v["first"], v["history"])):
            write(case, history)
            if _replay_fails(path):
                break
        lines.append(f"{prop}: {v['message']}")
        lines.append(f"VIOLATION property={prop} replay={path}")
        code = 1
    elif errors:
        code = 2
    elif evaluations == 0:
        errors.append("no case was evaluated")
        code = 2
    for what in known_findings(prop):
        lines.append(f"KNOWN-FINDING: property={prop} {what}")
    evidence["wall_s"] = round(time.monotonic() - t0, 2)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    if code != 1:
        for e in errors:
            print(e, file=sys.stderr)
    print(
        f"{prop} {tier} seed={seed}: {evaluations} cases, {len(hashes)} distinct non-trivial,"
        f" {evidence['wall_s']} s"
    )
    for line in lines:
        print(line)
    sys.stdout.flush()
    return code
