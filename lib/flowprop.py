"""Scenarios and drivers shared by the properties that are decided on whole conversions and on steps of arrays."""
import copy, hashlib, os, random, shutil
import numpy as np
from . import flowgen, flowrun, physrun

B = 10

def plan(ck, quick, thorough):
    """quick, thorough: lists of (kind, number of runs, knobs)"""
    for kind, n, kw in (quick if ck.quick else thorough):
        while n > 0:
            yield {"s": kind, "seed": ck.rng.randint(0, 10 ** 9), "n": min(B, n) if kind != "op" else 30, "kw": kw}
            n -= B if kind != "op" else 1

def runs(scn, d, full=False, **kw):
    """the conversions of a scenario with what the real code did"""
    r = random.Random(scn["seed"])
    for k in range(scn["n"]):
        run = flowgen.Gen(random.Random(r.randint(0, 10 ** 9)), **scn["kw"]).run()
        dd = os.path.join(d, "r%d" % k); os.makedirs(dd)
        yield run, dd
        shutil.rmtree(dd, ignore_errors=True)

def rec(run, obs):
    return {"kind": "run", "run": run, "obs": obs, "loose": run["loose"]}

def ops(scn):
    with np.errstate(all="ignore"): return physrun.Runner(scn["seed"], **scn["kw"]).run(scn["n"])

def drive(scn, d):
    if scn["s"] == "op": return ops(scn)
    return [rec(run, flowrun.execute(run, dd)) for run, dd in runs(scn, d)]

def digest(f):
    """an output file without the date of its creation"""
    f = dict(f); f.pop("n", None)
    return hashlib.md5(repr(sorted((k, repr(v)) for k, v in f.items())).encode()).hexdigest()
def bytes_of(path):
    """everything in an output file, bit by bit"""
    from netCDF4 import Dataset
    h = hashlib.md5()
    with Dataset(path) as nc:
        nc.set_auto_maskandscale(False)
        h.update(repr(sorted((k, len(v), v.isunlimited()) for k, v in nc.dimensions.items())).encode())
        h.update(repr([(k, repr(nc.getncattr(k))) for k in nc.ncattrs() if k not in ("creation_date", "history")]).encode())
        for n, v in sorted(nc.variables.items()):
            h.update(repr((n, v.dimensions, str(v.dtype), [(k, repr(v.getncattr(k))) for k in v.ncattrs()])).encode())
            h.update(np.ascontiguousarray(flowrun.whole(nc, v)).tobytes())
    return h.hexdigest()

def names_of(d):
    o = os.path.join(d, "out")
    return sorted(os.path.relpath(os.path.join(a, f), o) for a, _, fs in os.walk(o) for f in fs)
def same_files(d0, d1, only=None):
    """two output directories have the same files, bit by bit"""
    a, b = names_of(d0), names_of(d1)
    pairs = []
    if only is None: pairs.append({"k": "files", "a": a, "b": b})
    for n in (only if only is not None else [n for n in a if n in b]):
        pairs.append({"k": "contents", "a": bytes_of(os.path.join(d0, "out", n)) if n in a else "absent", "b": bytes_of(os.path.join(d1, "out", n)) if n in b else "absent"})
    return pairs

def graph_of(run, d, r, chd=0):
    """the node graph of the variables of a conversion, renamed as the conversion would"""
    from . import graph
    o2i = {}
    for v in run["vars"]:
        if v["kind"] == "def" and v["axis"] and len(v["dims"]) == 1: o2i[v["dims"][0]] = v["n"] if False else v["ast"]["n"]
    if not all(any(v["dims"] == [d] or d in o2i.values() for v in run["vars"]) for w in run["inp"] for d in w["dims"]): o2i = {d: d for d in o2i.values()}
    g = graph.Graph(run, d, r)
    for v in run["vars"]:
        if v["kind"] != "def": continue
        if chd and v["ast"]["t"] != "num":
            dims = [e for e in ["p", "q", "s"]]
            w = flowgen.fn("chdims", v["ast"], *[flowgen.st(x) for x in dims[:r.randint(1, 2)]])
            n0 = len(g.nodes)
            try: g.build(w)
            except Exception: pass
            continue
        n0 = len(g.nodes)
        try: g.top(v, o2i)
        except Exception: pass
    return g, None

def ask(g, n, r, q=None, none=0.15, ints=0.25):
    """one request to a node"""
    from . import graph
    if q is None:
        try: a = n["node"][{}]
        except Exception: a = None
        if a is None or not hasattr(a, "dimensions"): q = r.choice([{"t": "dict", "x": []}, {"t": "tuple", "x": [graph.X.FULL], "bare": True}, {"t": "none", "x": []}])
        else:
            whole = graph.reduced(n["ast"])
            o2i = {m["o"]: m["i"] for m in n["map"]}
            q = graph.some_request(r, [d for d in a.dimensions if o2i.get(d, d) not in whole], dict(zip(a.dimensions, a.shape)), 0.0 if n["k"] == "valid" else ints, none)
    obs, a = g.request(n, q)
    return {"kind": "node", "run": n.get("run", g.run), "node": n["k"], "ast": n["ast"], "map": n["map"], "v": n["v"], "q": {"t": q["t"], "x": q["x"]}, "obs": obs, "loose": g.run["loose"]}

def md5(p):
    return hashlib.md5(open(p, "rb").read()).hexdigest()
