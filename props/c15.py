"""C15: a file under its final name is always complete."""
import json, os, random, subprocess, sys
from lib import env, shim
MODULE = "Check_C15"
RULE = ("random conversions whose operations on the output directory are all recorded, killed before any one of them, with operations that fail once or for good, with errors and interrupts out of definitions, "
        "executed again after a failure; with and without earlier files under the final names")
REQUIRED_TAGS = ["ok", "error", "killed", "kill", "fail", "full", "retry", "raise", "interrupt", "retry_raise", "none", "earlier_file", "several_files", "temporary_left_by_fault", "complete_file_kept", "earlier_file_kept",
                 "earlier_file_replaced", "chunked", "retry_succeeded"]
TIMEOUT = 300
def design(tier):
    return [{"module": "MC_WriteFile", "cfg": "MC_WriteFile.cfg" if tier == "quick" else "MC_WriteFile_thorough.cfg"}]
def scenarios(ck):
    shim.path()
    for _ in range(16 if ck.quick else 300): yield {"s": "crash", "seed": ck.rng.randint(0, 10 ** 9), "runs": 4 if ck.quick else 8, "faults": 8 if ck.quick else 25}
def drive(scn, d):
    job = os.path.join(d, "job.json")
    with open(job, "w") as f: json.dump({"seed": scn["seed"], "runs": scn["runs"], "faults": scn["faults"], "dir": os.path.realpath(d)}, f)
    p = subprocess.run([sys.executable, os.path.join(env.VERIF, "lib", "crashrun.py"), job], env=dict(os.environ, LD_PRELOAD=shim.path()), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=250)
    if p.returncode: raise RuntimeError(p.stdout.decode("utf8", "replace")[-1500:])
    return json.load(open(job + ".out"))
