"""Run the property's quick check against every planted bug and write the table into DESIGN.md.

python3 tools/detect.py [id ...]   all of seeded/ without arguments; scratch copies live in a temporary directory
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = f"{VERIF}/seeded"
OUT = f"{VERIF}/tools/detect.json"


def one(i):
    m = json.load(open(f"{SEED}/{i}/meta.json"))
    d = tempfile.mkdtemp(prefix="hpdetect_")
    try:
        subprocess.run(f"git -C /repo archive HEAD | tar -x -C {d} && cd {d} && git init -q . && git apply {SEED}/{i}/patch.diff", shell=True, check=True)
        env = dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick")
        r = subprocess.run([f"{VERIF}/check", m["property"]], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        first = [x for x in r.stdout.splitlines() if x.startswith(m["property"] + ":")]
        return i, {"property": m["property"], "caught": r.returncode == 1, "message": (first or [""])[0][:160]}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def table(R):
    rows = ["| planted bug | check | caught (quick, seed 1) |", "|---|---|---|"]
    for i in sorted(R):
        rows.append(f"| {i} | {R[i]['property']} | {'yes' if R[i]['caught'] else 'no'} |")
    p = f"{VERIF}/DESIGN.md"
    t = open(p).read()
    t = re.sub(r"<!-- detection -->.*?<!-- /detection -->", lambda _: "<!-- detection -->\n" + "\n".join(rows) + "\n<!-- /detection -->", t, flags=re.S)
    open(p, "w").write(t)


def main():
    R = json.load(open(OUT)) if os.path.exists(OUT) else {}
    there = sorted(os.listdir(SEED))
    R = {k: v for k, v in R.items() if k in there}
    with cf.ThreadPoolExecutor(2) as ex:
        for i, r in ex.map(one, sys.argv[1:] or there):
            R[i] = r
            json.dump(R, open(OUT, "w"), indent=1, sort_keys=True)
            print("CAUGHT" if r["caught"] else "missed", i, r["message"], flush=True)
    json.dump(R, open(OUT, "w"), indent=1, sort_keys=True)
    table(R)


if __name__ == "__main__":
    main()
