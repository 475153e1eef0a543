"""runs conversions with a fault at one point; argv[1] is a job: seed, number of runs, faults per run, directory"""
import ctypes, json, os, random, shutil, signal, sys, time, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.pop("LD_PRELOAD", None)
from lib import env, flowprop as P, flowrun, flowgen as G
import hashlib
L = ctypes.CDLL(None)
L.fsshim_count.restype = ctypes.c_long
F = {"p_range": 0.1, "p_bad": 0.0, "depth": 1, "nvars": [1, 3], "p_files": 0.5, "p_meta": 0.3, "p_skip": 0.0, "p_chunk": 0.5, "p_reduce": 0.05}

def digest(p):
    try: return P.bytes_of(p)
    except Exception: return "raw:" + hashlib.md5(open(p, "rb").read()).hexdigest()
def listing(d):
    out = []
    for a, _, fs in os.walk(d):
        for f in sorted(fs): out.append({"n": os.path.relpath(os.path.join(a, f), d), "h": digest(os.path.join(a, f))})
    return out

def convert(run, inputs, mode, n):
    """in a process of its own: exit status 0 if it ended normally, 3 with an error"""
    from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc
    from pyconform.dataflow import DataFlow
    from pyconform.functions import Function, is_constant
    from pyconform.physarray import PhysArray
    warnings.simplefilter("ignore")
    calls = [-10 ** 9]
    class Probe(Function):
        key = "vprobe"
        def __init__(self, data):
            super(Probe, self).__init__(data)
        def __getitem__(self, index):
            x = self.arguments[0]
            if not is_constant(x): x = x[index]
            calls[0] += 1
            if calls[0] == n and mode in ("raise", "retry_raise"): raise ValueError("stop")
            if calls[0] == n and mode == "interrupt": raise KeyboardInterrupt()
            return x
    spec = flowrun.spec_dict(run)
    if mode in ("raise", "interrupt", "retry_raise"):
        for v in run["vars"]:
            if v["kind"] == "def": spec[v["n"]]["definition"] = "vprobe(%s)" % spec[v["n"]]["definition"]
    for v in run["vars"]: spec[v["n"]]["attributes"]["long_name"] = "name of " + v["n"]
    df = DataFlow(InputDatasetDesc("inp", inputs), OutputDatasetDesc("out", spec))
    def go(): df.execute(chunks=flowrun.chunks_of(run), serial=True)
    # (building the data flow already used the probe)
    calls[0] = 0
    return go

def one(run, inputs, d, mode, n, old):
    """one faulty run: returns the record"""
    out = os.path.join(d, "out"); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    log = os.path.join(d, "log")
    if os.path.exists(log): os.remove(log)
    olds = []
    for f in old:
        p = os.path.join(out, f); os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as g: g.write("an earlier file " + f)
        olds.append({"n": f, "h": digest(p), "ino": os.stat(p).st_ino})
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 4
        try:
            os.chdir(out)
            dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1)
            go = convert(run, inputs, mode, n)
            m = {"kill": 1, "fail": 2, "full": 3, "retry": 2}.get(mode, 0)
            L.fsshim_set(out.encode(), log.encode(), n if m else 0, m)
            code = 3
            try:
                go(); code = 0
            except BaseException:
                if mode in ("retry", "retry_raise"): go(); code = 0
        except BaseException: pass
        finally:
            # the interpreter ends as it would
            try:
                import gc; gc.collect()
            finally:
                with open(os.path.join(d, "count"), "w") as g: g.write("%d" % L.fsshim_count())
                os._exit(code)
    t = time.time()
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p: break
        if time.time() - t > 60: os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); return None
        time.sleep(0.002)
    end = "killed" if os.WIFSIGNALED(st) else {0: "ok", 3: "error"}.get(os.WEXITSTATUS(st))
    if end is None: return None
    ev, ids, nxt = [], {o["ino"]: o["ino"] for o in olds}, [0]
    # numbers of files are used again: every file gets a number of its own
    ids = {}
    for i, o in enumerate(olds): ids[o["ino"]] = i + 1; o["ino"] = i + 1
    nxt = len(olds) + 1
    for line in (open(log).read().splitlines() if os.path.exists(log) else []):
        op, a, b, ino = line.split("\t")
        ino = int(ino)
        if op == "create" or ino not in ids: ids[ino] = nxt; nxt += 1
        e = {"op": op, "a": a, "b": b, "ino": ids[ino]}
        # repeated writes to one file tell nothing new
        if ev and op == "write" and ev[-1]["op"] == "write" and ev[-1]["ino"] == e["ino"]: continue
        ev.append(e)
    return {"mode": mode, "end": end, "old": olds, "events": ev, "after": listing(out), "n": n}

def main():
    job = json.load(open(sys.argv[1]))
    r = random.Random(job["seed"])
    recs = []
    for k in range(job["runs"]):
        d = os.path.join(job["dir"], "r%d" % k); os.makedirs(d)
        run = G.Gen(random.Random(r.randint(0, 10 ** 9)), **F).run()
        for f in run["files"]:
            if r.random() < 0.2: f["n"] = "sub/" + f["n"]
            if r.random() < 0.3: f["format"] = r.choice(["NETCDF4_CLASSIC", "NETCDF3_CLASSIC", "NETCDF3_64BIT_DATA"])
            f["gattrs"] = [["title", "t"], ["institution", "i"]]
        if any(f.get("format", "NETCDF4") != "NETCDF4" for f in run["files"]):
            for v in run["vars"]:
                if v["ot"] == "f4": v["ot"] = "f8"
        inputs = flowrun.write_inputs(run, d)
        ref = one(run, inputs, d, "none", 0, [])
        if ref is None or ref["end"] != "ok": shutil.rmtree(d); continue
        final = [x["n"] for x in ref["after"]]
        total = int(open(os.path.join(d, "count")).read())
        base = {"final": sorted(set([f["n"] for f in run["files"]] + final)), "ref": ref["after"], "chunked": bool(run["chunks"]), "files": [f["n"] for f in run["files"]]}
        recs.append(dict(base, **ref))
        for _ in range(job["faults"]):
            mode = r.choice(["kill", "kill", "kill", "fail", "full", "retry", "retry", "raise", "interrupt", "retry_raise", "none"])
            n = r.randint(1, total) if mode in ("kill", "fail", "full", "retry") else r.randint(1, 2 * len(run["vars"]))
            x = one(run, inputs, d, mode, n, [f for f in final if r.random() < 0.4])
            if x is not None: recs.append(dict(base, **x))
        shutil.rmtree(d, ignore_errors=True)
    with open(sys.argv[1] + ".out", "w") as f: json.dump(recs, f)
main()
