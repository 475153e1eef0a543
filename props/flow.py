"""All clauses on random conversions (development)."""
import random
from lib import flowgen, flowrun
MODULE = "Check_Flow"
import os, json
KW = json.loads(os.environ.get("FLOWKW", "{}"))
RULE = "random conversions"
def scenarios(ck):
    for _ in range(300 if ck.quick else 3000):
        yield {"seed": ck.rng.randint(0, 10 ** 9), "kw": KW}
def drive(scn, d):
    run = scn.get("run") or flowgen.Gen(random.Random(scn["seed"]), **scn["kw"]).run()
    obs = flowrun.execute(run, d)
    return [{"kind": "run", "run": run, "obs": obs, "loose": run["loose"]}]
