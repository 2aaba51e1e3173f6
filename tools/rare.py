"""Mutants that show only now and then (a tool for building the checks, not a check).

python3-vt tools/rare.py OUTDIR SEED COUNT   writes OUTDIR/mutants.json: COUNT mutants of tools/mutate.py, each in force only under
a condition on the data (many items, large containers, odd ids ...); then use mutate.py tests / checks on OUTDIR.
"""
import ast
import json
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate

TRIGGER = '''def _rare(k, loc):
    p = loc.get("self")
    p = getattr(p, "instance", p)
    try:
        items, conts = p._items, p._containers
        sizes = [(i["w"], i["l"]) for i in items.values()]
        sides = [(c["W"], c.get("L") or 0) if not p._strip_pack else (c["W"], p._container_height) for c in conts.values()]
        if k == 0:
            return len(sizes) >= 20
        if k == 1:
            return max(map(max, sides)) > 150
        if k == 2:
            return len(sides) >= 4
        if k == 3:
            return not p._rotation and len(p._potential_points_strategy) < 5
        if k == 4:
            return any(not i.strip().isalnum() for i in items)
        if k == 5:
            return p._strip_pack and p._container_min_height is not None
        if k == 6:
            return sum(w * l for w, l in sizes) % 7 == 3
        if k == 7:
            return len(sizes) > 6 and any(1 in s for s in sizes)
        if k == 8:
            return p._workers_num > 3
        if k == 9:
            return len(sizes) == 1
        if k == 10:
            return p._strip_pack and sides[0][0] > 40
        if k == 11:
            return max(map(max, sizes)) > max(map(max, sides))
        # what went before
        old = getattr(p, "solution", None) or {}
        if k == 12:
            return bool(old) and sum(map(len, old.values())) < len(sizes)
        if k == 13:
            return list(items) != sorted(items)
        if k == 14:
            return not p._settings
        if k == 15:
            return tuple(p._potential_points_strategy) != tuple(p.DEFAULT_POTENTIAL_POINTS_STRATEGY)
        if k == 16:
            global _COUNT
            _COUNT = globals().get("_COUNT", 0) + 1
            return _COUNT % 50 == 49
        if k == 17:
            import multiprocessing
            return multiprocessing.current_process().name != "MainProcess"
        if k == 18:
            import threading
            return threading.current_thread() is not threading.main_thread()
        if k == 19:
            return type(p).__module__.split(".")[0] != "hyperpack"
        if k == 20:
            return type(p).__name__ == "PointGenPack"
        if k == 21:
            return len(set(sizes)) < len(sizes) - 3
        if k == 22:
            return bool(old) and p._strip_pack
        if k == 23:
            return any(w == l for w, l in sides) and len(sides) > 1
        if k == 24:
            return "figure" in (p._settings or {}) and bool(old)
    except Exception:
        return False
'''


TRIGGERS = [int(k) for k in os.environ.get("RARE_TRIGGERS", ",".join(map(str, range(25)))).split(",")]


def main(out, seed, count):
    os.makedirs(out, exist_ok=True)
    rng = random.Random(seed)
    pool = []
    for f in mutate.FILES:
        path = f"{mutate.REPO}/hyperpack/{f}.py"
        src = open(path).read()
        for m in mutate.mutants_of(path):
            m["file"] = f"hyperpack/{f}.py"
            pool.append((src, m))
    rng.shuffle(pool)
    good = []
    for src, m in pool:
        if len(good) == count:
            break
        k = rng.choice(TRIGGERS)
        a, b, old, new = m["a"], m["b"], m["old"], m["new"]
        if m["kind"] == "del":
            new = f"_rare({k}, locals()) or ({old})" if "=" not in old.split("(")[0] and not old.startswith(("raise", "continue", "break", "del")) else None
            if new is None:
                ind = a - src.rfind("\n", 0, a) - 1
                if "\n" in old:
                    continue
                new = f"if not _rare({k}, locals()):\n{' ' * (ind + 4)}{old}"
        elif m["kind"] == "return":
            new = f"return (None if _rare({k}, locals()) else ({old[6:]}))"
        elif m["kind"] in ("kwarg", "swap"):
            continue
        else:
            new = f"(({new}) if _rare({k}, locals()) else ({old}))"
        text = src[:a] + new + src[b:]
        try:
            tree = ast.parse(text)
        except SyntaxError:
            continue
        # the helper goes to the end of the file, so that positions stay
        full = text + "\n\n" + TRIGGER
        try:
            compile(full, "x", "exec")
        except SyntaxError:
            continue
        m.update(a=a, b=len(src), old=src[a:], new=full[a:], id=len(good), trigger=k, what=f"{old[:80]} -> {m['new'][:80]}")
        good.append(m)
    json.dump(good, open(f"{out}/mutants.json", "w"), indent=0)
    print(len(good))


if __name__ == "__main__":
    main(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]))
