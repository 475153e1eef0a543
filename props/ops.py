"""All clauses on random array operations (development)."""
import os, json
from lib import physrun
MODULE = "Check_Ops"
KW = json.loads(os.environ.get("OPSKW", "{}"))
def scenarios(ck):
    for _ in range(60 if ck.quick else 600):
        yield {"seed": ck.rng.randint(0, 10 ** 9), "n": 30, "kw": KW}
def drive(scn, d):
    import numpy as np
    with np.errstate(all="ignore"): return physrun.Runner(scn["seed"], **scn["kw"]).run(scn["n"])
