"""C13: input files are described faithfully and contradictions are refused."""
import os, random, warnings
from collections import OrderedDict
import numpy as np
from lib import proj
from props.c18 import norm
MODULE = "Check_C13"
RULE = ("random sets of one to five files, given in two orders, sharing variables and dimensions with equal or contradicting types, dimensions, lengths and unlimited flags, attributes of all kinds, unused dimensions, "
        "files that are not there or given twice; variables read through the description; output specifications with data of equal and of different lengths")
REQUIRED_TAGS = ["in", "out", "read", "accepted", "unreadable", "contradicting", "three_files", "variable_in_several_files", "unlimited", "unused_dimension", "file_given_twice", "length_known_elsewhere", "attributes_differ",
                 "types_differ", "orders_differ", "lengths_differ", "unlimited_differs", "read_of_several"]
def design(tier):
    m = [{"module": "MC_Datasets", "cfg": "MC_Datasets.cfg"}]
    return m if tier == "quick" else m + [{"module": "MC_Datasets", "cfg": "MC_Datasets_rich.cfg"}]
def scenarios(ck):
    for kind, n, size in ([("in", 24, 25), ("out", 6, 40)] if ck.quick else [("in", 600, 25), ("out", 100, 60)]):
        for _ in range(n): yield {"s": kind, "seed": ck.rng.randint(0, 10 ** 9), "n": size}
TYPES = {"f8": "double", "f4": "float", "i4": "int", "i2": "short", "i8": "int64", "i1": "byte", "u1": "ubyte", "u2": "ushort", "u4": "uint", "u8": "uint64"}
ATTRS = [("units", "m"), ("units", "K"), ("long_name", "a name"), ("number", 3), ("real", 2.5), ("vector", [1, 2, 3]), ("positive", "up"), ("calendar", "noleap"), ("limits", [0.0, 1.0])]

def describe(names):
    from pyconform.datasets import InputDatasetDesc
    obs = {"err": "", "dims": [], "vars": [], "names": []}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try: o = InputDatasetDesc("inp", names)
        except Exception as e:
            obs["err"] = type(e).__name__
            return obs, None
    return fill(obs, o), o
def dim(d): return {"n": d.name, "size": -1 if d.size is None else d.size, "unlim": bool(d.unlimited)}
def fill(obs, o):
    obs["dims"] = [dim(d) for d in o.dimensions.values()]
    obs["vars"] = [{"n": n, "t": v.datatype, "dims": list(v.dimensions), "dd": [dim(d) for d in v.dimensions.values()], "at": [{"k": k, "v": norm(x)} for k, x in v.attributes.items()],
                    "in": [os.path.basename(f) for f in v.files]} for n, v in o.variables.items()]
    obs["names"] = [os.path.basename(f) for f in o.files]
    return obs

def inputs(r, d):
    from netCDF4 import Dataset
    dims = {n: (r.choice([1, 2, 3, 4]), r.random() < 0.25) for n in ["x", "y", "z"]}
    vs = {}
    for n in ["a", "b", "c", "x", "y"]:
        ds = [n] if n in dims and r.random() < 0.8 else r.sample(sorted(dims), r.choice([0, 1, 1, 2, 2, 3]))
        vs[n] = (r.choice(sorted(TYPES)), ds, r.sample(ATTRS, r.randint(0, 3)))
    wrong = r.random() < 0.5
    files, held, names = [], {}, []
    for k in range(r.choice([1, 2, 2, 3, 3, 4, 5])):
        dk = {n: s for n, s in dims.items()}
        for n in dk:
            if wrong and r.random() < 0.06: dk[n] = (r.choice([s for s in [1, 2, 3, 4] if s != dk[n][0]]), dk[n][1])
            if wrong and r.random() < 0.04: dk[n] = (dk[n][0], not dk[n][1])
        order = r.sample(sorted(dk), 3)
        if r.random() < 0.3: order = order[:r.choice([2, 3])]
        p = os.path.join(d, "%s%d.nc" % (r.choice("mnab"), k))
        f = {"n": os.path.basename(p), "ok": True, "dims": [], "vars": []}
        with Dataset(p, "w") as nc:
            for n in order: nc.createDimension(n, None if dk[n][1] else dk[n][0]); f["dims"].append({"n": n, "size": dk[n][0], "unlim": dk[n][1]})
            for n in r.sample(sorted(vs), r.randint(1, 4)):
                t, ds, at = vs[n]
                if wrong and r.random() < 0.05: t = r.choice(sorted(TYPES))
                if wrong and r.random() < 0.05: ds = r.sample(ds, len(ds)) if r.random() < 0.6 else ds[:-1]
                if any(x not in order for x in ds): continue
                if r.random() < 0.15: at = r.sample(ATTRS, r.randint(0, 3))
                at = OrderedDict((a, x) for a, x in at)
                v = nc.createVariable(n, t, tuple(ds))
                for a, x in at.items(): v.setncattr(a, x)
                m = int(np.prod([dk[x][0] for x in ds])) if ds else 1
                c = [r.randint(0, 100) for _ in range(m)] if r.random() < 0.5 else [(7 * i + len(n)) % 50 for i in range(m)]
                v[...] = np.array(c).reshape([dk[x][0] for x in ds])
                f["vars"].append({"n": n, "t": TYPES[t], "dims": list(ds), "at": [{"k": a, "v": norm(v.getncattr(a))} for a in v.ncattrs()]})
                held.setdefault(n, []).append({"n": f["n"], "c": c})
            # (dimensions without a variable have no length while they are unlimited)
            used = set(x for v in f["vars"] for x in v["dims"])
            f["dims"] = [e for e in f["dims"] if e["n"] in used or not e["unlim"]]
        files.append(f); names.append(p)
    if r.random() < 0.04:
        names.append(os.path.join(d, "absent.nc")); files.append({"n": "absent.nc", "ok": False, "dims": [], "vars": []})
        if r.random() < 0.3: open(names[-1], "w").write("text")
    if r.random() < 0.06: k = r.randrange(len(names)); names.append(names[k]); files.append(files[k])
    obs, o = describe(names)
    other = list(names); r.shuffle(other)
    again, o2 = describe(other)
    out = [{"kind": "in", "files": files, "obs": obs, "again": again}]
    for ds in (o, o2):
        if ds is None or not ds.variables: continue
        n = r.choice(sorted(ds.variables))
        if n in held: out.append(read(ds, n, held[n]))
    return out
def read(ds, n, held):
    from pyconform.flownodes import ReadNode
    q = {"kind": "read", "held": held, "got": [], "err": ""}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            q["got"] = [int(x) for x in np.array(np.ma.getdata(ReadNode(ds.variables[n])[:])).ravel().tolist()]
    except Exception as e: q["err"] = type(e).__name__
    return q

def outputs(r):
    """one output specification, seen as one file per variable"""
    from pyconform.datasets import OutputDatasetDesc
    size = {n: r.choice([1, 2, 3]) for n in "xyz"}
    spec, files = OrderedDict(), []
    wrong = r.random() < 0.4
    for k in range(r.randint(1, 5)):
        n = "v%d" % k
        ds = r.sample("xyz", r.choice([0, 1, 1, 2, 3]))
        sh = [size[x] if not wrong or r.random() < 0.85 else r.choice([1, 2, 3]) for x in ds]
        data = r.random() < 0.6
        spec[n] = {"datatype": "double", "dimensions": list(ds), "attributes": OrderedDict(), "definition": np.zeros(sh).tolist() if data else "q%d" % k, "file": {"filename": "%s.nc" % n}}
        files.append({"n": "%s.nc" % n, "ok": True, "dims": [{"n": a, "size": b if data else -1, "unlim": False} for a, b in zip(ds, sh)], "vars": [{"n": n, "t": "double", "dims": list(ds), "at": []}]})
    def desc(s):
        obs = {"err": "", "dims": [], "vars": [], "names": []}
        try: o = OutputDatasetDesc("out", s)
        except Exception as e:
            obs["err"] = type(e).__name__
            return obs
        return fill(obs, o)
    items = list(spec.items()); r.shuffle(items)
    return [{"kind": "out", "files": files, "obs": desc(spec), "again": desc(OrderedDict(items))}]

def drive(scn, d):
    r = random.Random(scn["seed"])
    out = []
    for k in range(scn["n"]):
        if scn["s"] == "out": out += outputs(r); continue
        dd = os.path.join(d, "s%d" % k); os.makedirs(dd)
        out += inputs(r, dd)
    return out
