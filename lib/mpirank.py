"""one rank of a parallel run under mpirun: argv[1] is the job"""
import json, os, sys
from collections import OrderedDict
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import env
import warnings
def main():
    job = json.load(open(sys.argv[1]), object_pairs_hook=OrderedDict)
    from mpi4py import MPI
    k = MPI.COMM_WORLD.Get_rank()
    os.chdir(job["out"])
    warnings.simplefilter("ignore")
    ev = []
    try:
        if job["cli"]:
            from pyconform.cli import xconform
            spec = "%s.spec%d" % (sys.argv[1], k)
            with open(spec, "w") as f: json.dump(job["spec"], f)
            xconform.main(["-f", spec, "-n"] + [x for c, m in job["chunks"] for x in ("-c", "%s,%d" % (c, m))] + job["inputs"])
        else:
            from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc
            from pyconform.dataflow import DataFlow
            df = DataFlow(InputDatasetDesc("inp", job["inputs"]), OutputDatasetDesc("out", job["spec"]))
            df.execute(chunks=OrderedDict((c, m) for c, m in job["chunks"]), serial=False)
        ev.append({"rank": k + 1, "what": "end", "file": ""})
    except Exception as e:
        ev.append({"rank": k + 1, "what": "error", "file": type(e).__name__})
    with open("%s.%d" % (sys.argv[1], k), "w") as f: json.dump(ev, f)
    if ev[-1]["what"] == "error": MPI.COMM_WORLD.Abort(1)
main()
