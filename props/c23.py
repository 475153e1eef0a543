"""C23: the file access layer returns what was stored."""
import contextlib, hashlib, io, os, random, shutil
import numpy as np
from lib import proj
MODULE = "Check_C23"
RULE = ("random programs of operations of the file access layer on files of all formats, types and shapes, several files under construction at once, read back independently; "
        "bytes of the files read compared before and after")
REQUIRED_TAGS = ["create", "dim", "var", "define", "write", "copy", "info", "read", "several_files", "write_later", "write_default", "write_time", "write_missing", "read_all", "read_slice", "read_missing",
                 "define_with_copies", "scalar", "compressed", "name", "no_file", "fmt_netcdf", "fmt_netcdf4", "fmt_netcdfLarge", "fmt_netcdf4c", "fmt_netcdf4c1", "fmt_netcdf4c5", "fmt_other",
                 "type_f8", "type_f4", "type_i4", "type_i2", "type_S1"]
def design(tier):
    return [{"module": "MC_FileLayer", "cfg": "MC_FileLayer.cfg" if tier == "quick" else "MC_FileLayer_thorough.cfg"}]
def scenarios(ck):
    for _ in range(72 if ck.quick else 1500): yield {"s": "layer", "seed": ck.rng.randint(0, 10 ** 9), "n": 8}
    for _ in range(2 if ck.quick else 16): yield {"s": "name", "seed": ck.rng.randint(0, 10 ** 9), "n": 20}

def norm(x):
    if isinstance(x, (str, bytes)): return "s:" + (x.decode() if isinstance(x, bytes) else x)
    a = np.asarray(x)
    if a.dtype.kind in "SU": return "s:" + ",".join(str(y) for y in a.ravel())
    return a.dtype.str[1:] + ":" + ",".join("%.7g" % float(y) for y in a.ravel())
ATTRS = [("long_name", "some name"), ("units", "m"), ("comment", "a; b"), ("levels", np.array([1, 2, 3], "i4")), ("factor", 2.5), ("count", np.int32(4)), ("name", "a name"), ("size", np.int32(9)), ("shape", "round"),
         ("dtype", "text"), ("weights", np.array([.5, 1.5])), ("dimensions", "none"), ("history", "of the variable"), ("ndim", np.int32(7)), ("datatype", "x")]
GATTRS = [("title", "a title"), ("history", "made"), ("version", np.int32(3)), ("source", "x"), ("data_model", "mine"), ("name", "file"), ("disk_format", "none")]
TYPES = ["f8", "f4", "i4", "i2", "S1"]

def cells(a, t):
    a = np.ma.asarray(a)
    m = np.ma.getmaskarray(a).ravel(); x = np.ma.getdata(a).ravel()
    out = []
    for v, k in zip(x, m):
        if k: out.append([0, 0])
        elif t == "S1": out.append([ord(v) if len(v) else 0, 1])
        else:
            c = proj.cells(np.ma.array([v]), np.dtype(t), False)
            out.append(c[0])
    return out
def rnd(r, shape, t, missing):
    n = int(np.prod(shape)) if shape else 1
    if t == "S1":
        return np.array([r.choice("abcxyz") for _ in range(n)], "S1").reshape(shape)
    v = [r.randint(-50, 50) for _ in range(n)]
    if t[0] == "f": v = [x / r.choice([1, 2, 4]) for x in v]
    m = [r.random() < 0.25 for _ in range(n)] if missing and r.random() < 0.5 else [False] * n
    return np.ma.array(np.array(v, t).reshape(shape), mask=np.array(m).reshape(shape))
def variable(r, n, dims, t):
    at = [[k, v] for k, v in r.sample(ATTRS, r.randint(0, 4))]
    fill = None
    if t != "S1" and r.random() < 0.4: fill = np.array([r.choice([-999, -99])], t)[0]
    return {"n": n, "type": t, "dims": list(dims), "pyattrs": at, "pyfill": fill}
def out_attrs(at): return [{"k": k, "v": norm(v), "text": v if isinstance(v, str) else ""} for k, v in at]
def out_fill(f): return [] if f is None else [norm(f)]
def spec_var(v, c): return {"n": v["n"], "type": v["type"], "dims": v["dims"], "attrs": out_attrs(v["pyattrs"]), "fill": out_fill(v["pyfill"]), "c": c}

def source(r, k, d):
    from netCDF4 import Dataset
    fmt = r.choice(["NETCDF4", "NETCDF4_CLASSIC", "NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET"])
    dims = [{"n": n, "len": r.randint(1, 4), "unl": n == "time" and r.random() < 0.7} for n in ["time"] + r.sample(["x", "y", "z"], r.randint(1, 2))]
    name = os.path.join(d, "src%d.nc" % k)
    gat = r.sample(GATTRS, r.randint(0, 4))
    vs = []
    with Dataset(name, "w", format=fmt) as nc:
        for q in dims: nc.createDimension(q["n"], None if q["unl"] else q["len"])
        for a, v in gat: nc.setncattr(a, v)
        ln = {q["n"]: q["len"] for q in dims}
        cands = [("time", ["time"], r.choice(["f8", "i4"]))]
        for j in range(r.randint(2, 4)):
            t = r.choice(TYPES)
            dd = [q["n"] for q in dims if r.random() < 0.6]
            if r.random() < 0.3: r.shuffle(dd)
            if any(q["unl"] for q in dims) and "time" in dd and fmt != "NETCDF4": dd = ["time"] + [x for x in dd if x != "time"]
            cands.append(("v%d" % j, dd, t))
        for n, dd, t in cands:
            v = variable(r, n, dd, t)
            x = nc.createVariable(n, t, tuple(dd), fill_value=v["pyfill"])
            for a, b in v["pyattrs"]: x.setncattr(a, b)
            a = rnd(r, tuple(ln[e] for e in dd), t, bool(dd))
            if dd: x[...] = a
            else: x[...] = a if t == "S1" else np.ma.getdata(a)
            v["data"] = a
            vs.append(v)
    return {"path": name, "n": "src%d" % k, "fmt": fmt, "dims": dims, "pyg": gat, "pyvars": vs}

def read(path, n):
    from netCDF4 import Dataset, default_fillvals
    o = {"n": n, "dims": [], "vars": []}
    with Dataset(path) as nc:
        o["fmt"] = nc.file_format
        o["gattrs"] = [{"k": k, "v": norm(nc.getncattr(k))} for k in nc.ncattrs()]
        for dn, dv in nc.dimensions.items(): o["dims"].append({"n": dn, "len": len(dv), "unl": bool(dv.isunlimited())})
        for vn, v in nc.variables.items():
            v.set_auto_maskandscale(False)
            a = v[...]
            t = v.dtype.str[1:]
            at = [k for k in v.ncattrs() if k != "_FillValue"]
            f = v.getncattr("_FillValue") if "_FillValue" in v.ncattrs() else None
            if t == "S1": c = cells(np.ma.masked_where((np.asarray(a) == b"\x00") | (np.asarray(a) == b""), np.asarray(a)), t)
            else: c = cells(np.ma.masked_where(np.asarray(a) == (f if f is not None else default_fillvals[t]), a), t)
            fl = v.filters() or {}
            o["vars"].append({"n": vn, "type": t, "dims": list(v.dimensions), "attrs": [{"k": k, "v": norm(v.getncattr(k))} for k in at], "fill": out_fill(f), "c": c,
                              "level": int(fl.get("complevel", 0)) if fl.get("zlib") else 0})
    return o
def md5(p): return hashlib.md5(open(p, "rb").read()).hexdigest()

def program(r, d):
    from pyconform import climIO
    with contextlib.redirect_stdout(io.StringIO()): port = climIO.init_climIO(override="netCDF4")
    srcs = [source(r, k, d) for k in range(r.randint(1, 2))]
    before = [md5(s["path"]) for s in srcs]
    ops, err = [], ""
    files, handles = {}, {}
    def new(k):
        n = "new%d" % k
        fmt = r.choice(["netcdf", "netcdf4", "netcdfLarge", "netcdf4c", "netcdf4c1", "netcdf4c5", "netcdf4c0", "netcdf4c9", "other"])
        h = r.choice([None, "a history"])
        p = os.path.join(d, n + ".nc")
        with contextlib.redirect_stdout(io.StringIO()): f = port.create_file(p, fmt, h) if h else port.create_file(p, fmt)
        ops.append({"op": "create", "f": n, "fmt": fmt, "hist": "s:" + (h or "clim-convert" + p)})
        files[n] = {"f": f, "dims": {}, "vars": {}, "all": {}, "path": p, "defined": False}
    try:
        for k in range(r.choice([1, 1, 2])): new(k)
        for _ in range(r.randint(4, 14)):
            n = r.choice(sorted(files)); F = files[n]
            w = r.random()
            s = r.choice(srcs)
            if w < 0.2:
                v = r.choice(s["pyvars"])
                h = port.open_file(s["path"])
                t, dims, at = port.get_var_info(h, v["n"])
                if r.random() < 0.9: port.close_file(h)
                at = dict(at); 
                ops.append({"op": "info", "s": s["n"], "var": v["n"], "ret": {"type": np.dtype(t).str[1:], "dims": list(dims), "attrs": [{"k": k, "v": norm(x)} for k, x in at.items() if k != "_FillValue"]}})
            elif w < 0.4:
                v = r.choice(s["pyvars"])
                al = r.random() < 0.4 or not v["dims"]
                sh = [q["len"] for e in v["dims"] for q in s["dims"] if q["n"] == e]
                i = 0 if al else r.randrange(sh[0])
                h = port.open_file(s["path"])
                a = port.read_slice(h, v["n"], i, all_values=al) if al or r.random() < 0.5 else port.read_slice(h, v["n"], i)
                a = np.ma.array(a)
                port.close_file(h)
                ops.append({"op": "read", "s": s["n"], "var": v["n"], "index": i, "all": al, "ret": {"shape": list(a.shape), "c": cells(a, v["type"])}})
            elif w < 0.5 and not F["defined"] and not F["dims"]:
                ms = [v for v in s["pyvars"] if r.random() < 0.6 and ("time" not in v["dims"] or v["dims"][0] == "time")]
                ts = [v for v in s["pyvars"] if "time" not in v["dims"] or v["dims"][0] == "time"]
                tv = r.choice(ts)
                name = r.choice(["out", "new", tv["n"] if tv not in ms else "out"])
                av, _ = port.define_file(F["f"], name, [m["n"] for m in ms], s["path"], tv["n"])
                F["all"].update(av); F["defined"] = True
                for q in s["dims"]: F["dims"][q["n"]] = dict(q, unl=q["n"] == "time")
                for m in ms: F["vars"][m["n"]] = m
                F["vars"][name] = dict(tv, n=name)
                ops.append({"op": "define", "f": n, "s": s["n"], "var": name, "meta": [m["n"] for m in ms], "tvar": tv["n"]})
            elif w < 0.6 and len(F["dims"]) < 3:
                q = next((q for q in ["time", "x", "y"] if q not in F["dims"]), None)
                if q is None: continue
                u = q == "time" and r.random() < 0.8
                ln = 0 if u else r.randint(1, 4)
                F["f"].createDimension(q, None if u else ln)
                F["dims"][q] = {"n": q, "len": ln, "unl": u}
                ops.append({"op": "dim", "f": n, "d": q, "len": ln, "unl": u})
            elif w < 0.75:
                vn = next((q for q in ["time", "a", "b", "c"] if q not in F["vars"] and (q != "time" or "time" in F["dims"])), None)
                if vn is None: continue
                dd = ["time"] if vn == "time" else (["time"] if "time" in F["dims"] and r.random() < 0.7 else []) + [q for q in F["dims"] if q != "time" and r.random() < 0.6]
                v = variable(r, vn, dd, r.choice(TYPES[:4] if "time" in dd else TYPES))
                at = {k: x for k, x in v["pyattrs"]}
                if v["pyfill"] is not None: at["_FillValue"] = v["pyfill"]
                F["all"][vn] = port.create_var(F["f"], vn, v["type"], tuple(dd) if r.random() < 0.5 else list(dd), at)
                F["vars"][vn] = v
                ops.append({"op": "var", "f": n, "v": spec_var(v, [])})
            elif w < 0.93:
                c = [v for v in F["vars"].values() if v["dims"] and v["dims"][0] == "time" and v["type"] != "S1"]
                if not c: continue
                v = r.choice(c)
                sh = tuple(F["dims"][e]["len"] for e in v["dims"][1:])
                tl = F["dims"]["time"]
                i = r.choice([-99, 0, 1, 2, 3]) if tl["unl"] else r.choice([-99] + list(range(tl["len"])))
                if v["n"] == "time": a = rnd(r, (r.randint(1, 3),) if r.random() < 0.5 else (), v["type"], False)
                else: a = rnd(r, sh, v["type"], bool(sh))
                # (other types are converted)
                b = a.astype(r.choice(["f8", "f4"])) if r.random() < 0.3 else a
                av = {k: x for k, x in F["all"].items()}
                if i == -99 and r.random() < 0.5: port.write_var(av, b, v["n"])
                else: port.write_var(av, b, v["n"], index=i)
                ops.append({"op": "write", "f": n, "var": v["n"], "index": i, "shape": list(a.shape), "c": cells(a, v["type"])})
            else:
                c = [(v, u) for v in F["vars"].values() for u in s["pyvars"] if v["type"] == u["type"] and v["dims"] == u["dims"] and all(F["dims"][e]["unl"] or F["dims"][e]["len"] == next(q["len"] for q in s["dims"] if q["n"] == e) for e in v["dims"])
                     and not (v["dims"] and np.ma.is_masked(u["data"]) and v["type"] == "S1")]
                if not c: continue
                v, u = r.choice(c)
                h = port.open_file(s["path"])
                port.write_meta_var(F["all"][v["n"]], v["n"], h.variables[u["n"]])
                port.close_file(h)
                ops.append({"op": "copy", "f": n, "var": v["n"], "s": s["n"], "from": u["n"]})
    except Exception as e:
        err = type(e).__name__ + ": " + str(e)[:150]
    after = []
    for n in sorted(files):
        try: port.close_file(files[n]["f"])
        except Exception as e: err = err or "close " + str(e)[:80]
        if not err: after.append(read(files[n]["path"], n))
    return {"kind": "layer", "sources": [{"n": s["n"], "fmt": s["fmt"], "gattrs": out_attrs(s["pyg"]), "dims": s["dims"], "vars": [spec_var(v, cells(v["data"], v["type"])) for v in s["pyvars"]]} for s in srcs],
            "ops": ops, "after": after, "digests": [[a, md5(s["path"])] for a, s in zip(before, srcs)], "err": err}

def name(r, d):
    from pyconform import climIO
    os.makedirs(os.path.join(d, "dir"), exist_ok=True)
    m = {"directory": os.path.join(d, "dir"), "fn": r.choice(["a.nc", "case"]), "pattern": r.choice([["$prefix", ".", "$var", ".", "$date_pattern", ".", "$suffix"], ["$prefix", "$hem", "_", "$var", ".nc"], ["x", "$date_pattern", "$suffix"]]),
         "date_stamp": "2000-01", "suffix": "nc"}
    split = r.choice(["", "_nh"])
    val = {"$prefix": m["fn"], "$var": "T", "$date_pattern": m["date_stamp"], "$hem": split, "$suffix": m["suffix"]}
    cand = [m["directory"] + "/" + m["fn"], m["fn"], m["directory"] + "/" + "".join(val.get(p, p) for p in m["pattern"])]
    there = []
    cwd = os.getcwd(); os.chdir(d)
    try:
        for c in cand:
            if r.random() < 0.4: open(c, "w").close(); there.append(c)
        got = climIO.get_filename("T", m, split)
        for c in there:
            if os.path.exists(c): os.remove(c)
    finally: os.chdir(cwd)
    return {"kind": "name", "candidates": cand, "there": there, "got": got or ""}

def drive(scn, d):
    r = random.Random(scn["seed"])
    out = []
    for k in range(scn["n"]):
        dd = os.path.join(d, "p%d" % k); os.makedirs(dd)
        out.append(name(r, dd) if scn["s"] == "name" else program(r, dd))
        shutil.rmtree(dd, ignore_errors=True)
    return out
