"""C14: parallel runs write every file exactly once and equal serial runs."""
import json, os, random, shutil, subprocess, sys, warnings
from collections import OrderedDict
from lib import env, flowprop as P, flowrun, flowgen as G
MODULE = "Check_C14"
RULE = ("random conversions with up to nine files, serial and with one to seven ranks: ranks simulated under random schedules, through the library (own or given communicator) and through the command line, "
        "and real processes under mpirun, with different hash seeds")
REQUIRED_TAGS = ["parallel", "own", "given", "cli", "mpirun", "ranks_1", "ranks_2", "ranks_3", "ranks_5", "as_many_files", "more_files", "fewer_files", "idle_rank", "several_writers", "interleaved"]
F = {"p_range": 0.2, "p_bad": 0.0, "depth": 1, "nvars": [1, 7], "p_files": 0.5, "p_meta": 0.4, "p_skip": 0.1, "p_chunk": 0.25, "p_reduce": 0.05}
TIMEOUT = 300
def design(tier):
    return [{"module": "MC_Parallel", "cfg": "MC_Parallel.cfg" if tier == "quick" else "MC_Parallel_thorough.cfg"}]
def scenarios(ck):
    for how, n, size in ([("own", 8, 10), ("given", 8, 10), ("cli", 6, 8), ("mpirun", 4, 1)] if ck.quick else [("own", 150, 20), ("given", 150, 20), ("cli", 100, 15), ("mpirun", 100, 2)]):
        for _ in range(n): yield {"s": how, "seed": ck.rng.randint(0, 10 ** 9), "n": size}

def files_of(d):
    return [{"n": n, "h": P.bytes_of(os.path.join(d, "out", n))} for n in P.names_of(d) if not n.endswith(".tmp.nc")]
def drive(scn, d):
    r = random.Random(scn["seed"])
    out = []
    for k in range(scn["n"]):
        run = G.Gen(random.Random(r.randint(0, 10 ** 9)), **F).run()
        for v in run["vars"]:
            # (what a number of files means needs files)
            if v["n"].startswith("o") and r.random() < 0.8 and not any(f["owner"] == v["n"] for f in run["files"]): run["files"].append({"n": "h_%s.nc" % v["n"], "owner": v["n"], "meta": []})
        for f in run["files"]:
            if r.random() < 0.2: f["n"] = f["n"].replace(".nc", r.choice(["_{%Y%m-%Y%m}.nc", "_{%Y%m%d-%d}.nc"]))
        d0, d1 = os.path.join(d, "%ds" % k), os.path.join(d, "%dp" % k)
        os.makedirs(d0); os.makedirs(d1)
        inputs = flowrun.write_inputs(run, d)
        o = flowrun.execute(run, d0, inputs=inputs)
        rec = {"how": scn["s"], "n": 1, "events": [], "stuck": False, "traced": scn["s"] != "mpirun", "serialerr": o["err"], "serial": [], "parallel": [], "tmp": [], "run": {"files": [f["n"] for f in run["files"]]}}
        if not o["err"]:
            rec["n"] = r.choice([1, 2, 2, 3, 3, 4, 5, 7])
            rec["serial"] = files_of(d0)
            os.makedirs(os.path.join(d1, "out"))
            (real if scn["s"] == "mpirun" else simulated)(scn["s"], run, inputs, d1, rec, r)
            rec["parallel"] = files_of(d1)
            rec["tmp"] = [n for n in P.names_of(d1) if n.endswith(".tmp.nc") and n not in P.names_of(d0)]
        out.append(rec)
        for x in (d0, d1): shutil.rmtree(x, ignore_errors=True)
        for x in inputs: os.remove(x)
    return out

def simulated(how, run, inputs, d1, rec, r):
    from lib.simcomm import World, Rank
    from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc
    from pyconform.dataflow import DataFlow
    from pyconform.cli import xconform
    cwd = os.getcwd()
    os.chdir(os.path.join(d1, "out"))
    w = World(rec["n"], r, os.path.join(d1, "out"))
    spec = os.path.join(d1, "spec.json")
    with open(spec, "w") as f: json.dump(flowrun.spec_dict(run), f)
    def rank(k):
        if how == "cli":
            xconform.main(["-f", spec, "-n"] + [x for c, m in run["chunks"] for x in ("-c", "%s,%d" % (c, m))] + inputs)
            return
        df = DataFlow(InputDatasetDesc("inp", inputs), OutputDatasetDesc("out", flowrun.spec_dict(run)))
        df.execute(chunks=flowrun.chunks_of(run), serial=False, scomm=Rank(w) if how == "given" else None)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            rec["stuck"] = not w.run(rank) or w.dead
    finally: os.chdir(cwd)
    rec["events"] = w.events

def real(how, run, inputs, d1, rec, r):
    job = os.path.join(d1, "job.json")
    with open(job, "w") as f: json.dump({"spec": flowrun.spec_dict(run), "inputs": inputs, "chunks": run["chunks"], "out": os.path.join(d1, "out"), "cli": r.random() < 0.4}, f)
    e = dict(os.environ)
    for x in [x for x in e if x.startswith("OMPI_MCA_ess")]: del e[x]
    e.pop("PYTHONHASHSEED", None)
    e.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", PYTHONPATH=env.VERIF)
    p = subprocess.Popen(["mpirun", "--oversubscribe", "--mca", "btl", "self,vader,tcp", "-n", str(rec["n"]), sys.executable, os.path.join(env.VERIF, "lib", "mpirank.py"), job],
                         env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d1)
    try: text = p.communicate(timeout=100)[0]
    except subprocess.TimeoutExpired:
        p.kill(); p.communicate()
        rec["stuck"] = True; text = b""
    for k in range(rec["n"]):
        try: ev = json.load(open(job + ".%d" % k))
        except (OSError, ValueError): continue
        rec["events"] += ev
    if not rec["events"]: rec["msg"] = text.decode("utf8", "replace")[-400:]
