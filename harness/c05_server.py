import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402

real = os.dup(1)
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
out = os.fdopen(real, "w")
core.load()
from checks.c05 import do_job  # noqa: E402

for line in sys.stdin:
    res = []
    for job in json.loads(line):
        try:
            res.append(do_job(job))
        except Exception as e:  # noqa
            res.append({"error": f"{type(e).__name__}: {e}"})
        core.CAPTURE.clear()
    out.write(json.dumps(res) + "\n")
    out.flush()
