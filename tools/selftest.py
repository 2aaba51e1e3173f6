"""Do the candidates tried while minimising stay valid cases? None may fail on the unchanged tree.

python3-vt tools/selftest.py [cases per check] [check ...]
"""
import importlib
import json
import os
import random
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "harness"))
os.environ.setdefault("VERIF_SCRATCH", "/tmp")
import gen  # noqa
import runner  # noqa
import shrink  # noqa
from core import dumps  # noqa


def main(prop, cases):
    mod = runner.load_check(prop)
    if hasattr(mod, "setup"):
        mod.setup("quick", 0)
    r = random.Random(prop)
    strat = mod.strategy("quick") if hasattr(mod, "strategy") else None
    import hypothesis

    drawn = []

    @hypothesis.seed(7)
    @hypothesis.settings(max_examples=cases, database=None, deadline=None, phases=(hypothesis.Phase.generate,), suppress_health_check=list(hypothesis.HealthCheck))
    @hypothesis.given(strat)
    def draw(c):
        drawn.append(json.loads(dumps(c)))

    if strat is not None:
        draw()
    else:
        drawn = list(mod.enumerated("quick"))[:cases]
    end = time.monotonic() + 60
    tried = bad = crashed = 0
    for case in drawn:
        for depth in range(3):
            cands = list(shrink._quiet(shrink.candidates(case)))
            if hasattr(mod, "shrink"):
                cands += list(shrink._quiet(mod.shrink(case)))
            if not cands or time.monotonic() > end:
                break
            r.shuffle(cands)
            last = None
            for c in cands[:12]:
                c = json.loads(dumps(c))
                try:
                    _, msg = runner.run_one(mod, c)
                except Exception as e:  # noqa
                    msg = runner.CRASH + repr(e)
                tried += 1
                if msg and msg.startswith(runner.CRASH):
                    crashed += 1
                elif msg:
                    bad += 1
                    if bad < 4:
                        print("INVALID", prop, msg[:300], dumps(c)[:600])
                else:
                    last = c
            if last is None:
                break
            case = last
    print(prop, "cases", len(drawn), "candidates", tried, "no valid case", crashed, "invalid but failing", bad, flush=True)
    if hasattr(mod, "teardown"):
        mod.teardown()


if __name__ == "__main__":
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 60
    props = sys.argv[2:] or [f"C{k:02d}" for k in range(1, 32)]
    if len(props) == 1:
        main(props[0], n)
        sys.stdout.flush()
        os._exit(0)
    import subprocess

    for p in props:
        subprocess.run([sys.executable, __file__, str(n), p], timeout=600)
