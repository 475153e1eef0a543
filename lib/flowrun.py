"""Builds the files and the specification of a scenario, runs the real data flow, reads what it wrote."""
import glob, os, warnings
from collections import OrderedDict
from fractions import Fraction
import numpy as np
from . import env, proj, idx as X

NCT = {"f8": "double", "f4": "real", "i4": "int", "i2": "short", "i8": "int64", "i1": "byte", "S1": "char"}
NCT_CLASSIC = dict(NCT, f4="float")

def unit_str(u):
    """declared units -> attribute string (None: no attribute)"""
    if "has" in u and not u["has"]: return None
    if u["ref"]:
        y, m, d, s = u["ref"]
        r = "%04d-%02d-%02d" % (y, m, d)
        if s or u.get("full"): r += " %02d:%02d:%02d" % (s // 3600, s // 60 % 60, s % 60)
        return "%s since %s" % (u["n"] or "?", r)
    if u["n"] == "": return u.get("blank", "?")
    return u["n"]

def num_text(e):
    n, d = e["v"]
    if e["k"] == "i": return str(n)
    x = n / d
    s = repr(float(x))
    return s

PREC = {"+": 1, "-": 1, "*": 2, "/": 2, "**": 4}
def text(e, full=True):
    """the definition string of an expression; full: with all parentheses"""
    t = e["t"]
    if t == "num": return num_text(e)
    if t == "str": return '"%s"' % e["v"]
    if t == "var": return e["n"] + (X.text(e["x"]) if e["x"] else "")
    if t == "op":
        if len(e["a"]) == 1: return "(-%s)" % text(e["a"][0], full)
        return "(%s%s%s)" % (text(e["a"][0], full), e["n"], text(e["a"][1], full))
    args = [text(a, full) for a in e["a"]] + ["%s=%s" % (k["n"], text(k["v"], full)) for k in e["kw"]]
    return "%s(%s)" % (e["n"], ", ".join(args))

def np_array(c, shape, dt):
    m = [x[1] == 0 for x in c]
    kind = np.dtype(dt).kind
    if kind == "S": return np.array([chr(x[0]).encode("latin1") for x in c], "S1").reshape(shape)
    data = [0 if k else (x[0] if kind == "i" else x[0] / x[1]) for x, k in zip(c, m)]
    a = np.ma.array(np.array(data, dtype=dt).reshape(shape), mask=np.array(m, dtype=bool).reshape(shape))
    return a

def write_inputs(run, d):
    """input files; returns their names in order"""
    from netCDF4 import Dataset
    dims = {}
    files = {}
    for v in run["inp"]:
        for f in v.get("f", [0]): files.setdefault(f, []).append(v)
        for a, n in zip(v["dims"], v["shape"]): dims[a] = n
    names = []
    for f in sorted(files):
        fn = os.path.join(d, "inp%d.nc" % f)
        names.append(fn)
        with Dataset(fn, "w", format="NETCDF4") as nc:
            for v in files[f]:
                for a in v["dims"]:
                    if a not in nc.dimensions: nc.createDimension(a, None if a in run.get("unlim", []) else dims[a])
            for v in files[f]:
                nd = v.get("nd", {"f": "f8", "i": "i4", "c": "S1"}[v["dt"]])
                var = nc.createVariable(v["n"], nd, tuple(v["dims"]), fill_value=v.get("fill", -999) if nd != "S1" and any(x[1] == 0 for x in v["c"]) else None)
                a = np_array(v["c"], tuple(v["shape"]), nd)
                if v["dims"]: var[...] = a
                elif not np.ma.is_masked(a): var[...] = a.item()
                u = unit_str(v["un"])
                if u is not None: var.units = u
                if v["un"]["ref"] and v["un"]["cal"]: var.calendar = v["un"]["cal"]
                if v["pos"]: var.positive = v["pos"]
    return names

def spec_dict(run):
    spec = OrderedDict()
    files = {f["owner"]: f for f in run["files"]}
    for v in run["vars"]:
        s = OrderedDict()
        a = OrderedDict()
        fm = run.get("format", "NETCDF4")
        s["datatype"] = (NCT if fm == "NETCDF4" else NCT_CLASSIC)[v["ot"]]
        s["dimensions"] = list(v["dims"])
        if v["kind"] == "def": s["definition"] = v.get("text") or text(v["ast"])
        elif v["kind"] == "data":
            arr = np_array(v["c"], tuple(v["shape"]), v["ot"])
            if v["ot"] == "S1": arr = np.array([b"".join(x).decode("latin1") for x in arr.reshape(-1, v["shape"][-1])]).reshape(v["shape"][:-1])
            s["definition"] = arr.tolist()
        elif v.get("blankdef"): s["definition"] = " "
        u = unit_str(v["u"])
        if u is not None:
            a["units"] = u
            if v["u"]["cal"]: a["calendar"] = v["u"]["cal"]
        if v["pos"]: a["positive"] = v["pos"]
        for k, n in (("vmin", "valid_min"), ("vmax", "valid_max"), ("mmin", "ok_min_mean_abs"), ("mmax", "ok_max_mean_abs")):
            if v.get(k): a[n] = v[k][0][0] / v[k][0][1] if v[k][0][1] != 1 else v[k][0][0]
        if v["axis"]: a["axis"] = v.get("axisname", "X")
        if v["dir"]: a["direction"] = v["dir"]
        if v["bounds"]: a["bounds"] = v["bounds"]
        if v["coords"]: a["coordinates"] = " ".join(v["coords"])
        if v.get("fillv") is not None: a["_FillValue"] = v["fillv"]
        elif v.get("fill"): a["_FillValue"] = chr(v["fill"][0][0]) if v["ot"] == "S1" else v["fill"][0][0] if v["ot"][0] == "i" else float(v["fill"][0][0])
        for k, x in v.get("attrs", []): a[k] = x
        s["attributes"] = a
        if v["n"] in files:
            f = files[v["n"]]
            s["file"] = {"filename": f["n"], "format": f.get("format", fm)}
            if f["meta"]: s["file"]["metavars"] = list(f["meta"])
            if f.get("gattrs") is not None: s["file"]["attributes"] = OrderedDict(f["gattrs"])
            if f.get("deflate") is not None: s["file"]["deflate"] = f["deflate"]
            if f.get("tvar"): s["file"]["autoparse_time_variable"] = f["tvar"]
        spec[v["n"]] = s
    return spec

def whole(nc, v):
    """all cells of a variable.  Where the data end before an unlimited dimension does, netCDF-C fills what is missing only after
    it has read what is there, so that with such a dimension behind another one the cells of a whole read are in the wrong places"""
    k = max([i for i, d in enumerate(v.dimensions) if nc.dimensions[d].isunlimited()] or [0])
    if k == 0 or 0 in v.shape: return v[...]
    out = np.empty(v.shape, v.dtype)
    for i in np.ndindex(*v.shape[:k]): out[i] = v[i]
    return out

def read_file(path, full=False, loose=False):
    from netCDF4 import Dataset
    out = {"n": os.path.basename(path), "vars": [], "dims": []}
    with Dataset(path, "r") as nc:
        out["fmt"] = nc.file_format
        for dn, dv in nc.dimensions.items(): out["dims"].append({"n": dn, "size": len(dv), "unlim": bool(dv.isunlimited())})
        if full: out["gattrs"] = [[k, attr_json(nc.getncattr(k))] for k in nc.ncattrs()]
        for vn, v in nc.variables.items():
            o = {"n": vn, "dims": list(v.dimensions), "shape": list(v.shape), "ot": v.dtype.str[1:] if v.dtype != str else "str"}
            at = {k: v.getncattr(k) for k in v.ncattrs()}
            v.set_auto_maskandscale(True)
            o["fv"] = []
            if v.dtype.kind == "S":
                v.set_auto_mask(False); v.set_auto_chartostring(False)
                fv = at.get("_FillValue")
                fc = None if fv is None else ord(fv if isinstance(fv, str) else fv.decode("latin1"))
                if fc is not None: o["fv"] = [[fc, 1]]
                codes = [ord(x.decode("latin1")) if x else 0 for x in whole(nc, v).ravel().tolist()]
                o["c"] = [[0, 0] if x in (0, fc) else [x, 1] for x in codes]
            else:
                fv = at.get("_FillValue")
                if fv is not None: o["fv"] = [proj.cell(fv)]
                v.set_auto_mask(False)
                raw = whole(nc, v)
                from netCDF4 import default_fillvals
                fill = fv if fv is not None else default_fillvals[v.dtype.str[1:]]
                a = np.ma.masked_where(raw == fill, raw)
                # a declared missing_value marks missing cells as well
                mv = at.get("missing_value")
                if mv is not None and np.asarray(mv).dtype.kind in "iuf" and v.dtype.kind in "iuf": a = np.ma.masked_where(np.isin(raw, np.atleast_1d(mv).astype(v.dtype)), a)
                o["c"] = proj.cells(a, v.dtype, loose)
            us = at.get("units")
            try:
                from cf_units import Unit
                o["u"] = proj.unit(Unit(us, calendar=at.get("calendar"))) if us is not None else proj.unit("unknown")
            except Exception: o["u"] = proj.unit("unknown"); o["u"]["t"] = "bad"
            o["hasu"] = us is not None
            o["pos"] = at.get("positive", "")
            if full:
                o["attrs"] = [[k, attr_json(x)] for k, x in at.items()]
                f = v.filters() or {}
                o["zlib"] = int(bool(f.get("zlib"))); o["level"] = int(f.get("complevel", 0))
            out["vars"].append(o)
    return out

def digest_warnings(obs):
    import re
    obs["skipv"], obs["skipf"], obs["valid"] = [], [], []
    obs["datewarn"] = any(k == "DateTimeAutoParseWarning" for k, _ in obs["warn"])
    for k, m in obs.pop("warn"):
        g = re.search(r"Skipping output variable (\S+?)\.?$", m)
        if g: obs["skipv"].append(g.group(1)); continue
        g = re.search(r"Skipping output file (\S+) due to", m)
        if g: obs["skipf"].append(g.group(1)); continue
        g = re.match(r"(valid_min|valid_max|ok_min_mean_abs|ok_max_mean_abs): .*\('([^']*)'\)$", m)
        if g: obs["valid"].append({"k": g.group(1), "v": g.group(2)})
    for k in ("skipv", "skipf"): obs[k] = sorted(set(obs[k]))
    obs["valid"] = [dict(t) for t in sorted(set(tuple(sorted(x.items())) for x in obs["valid"]))]

def attr_json(x):
    if isinstance(x, (bytes, str)): return "s:" + (x.decode() if isinstance(x, bytes) else x)
    a = np.asarray(x)
    return a.dtype.str[1:] + ":" + ",".join("%.9g" % float(y) for y in a.ravel())

def errname(e):
    return type(e).__name__

class Obs(dict):
    pass

def build(run, d, inputs=None):
    from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc
    from pyconform.dataflow import DataFlow
    names = inputs if inputs is not None else write_inputs(run, d)
    ids = InputDatasetDesc("inp", names)
    ods = OutputDatasetDesc("out", spec_dict(run))
    return ids, ods, DataFlow(ids, ods)

def chunks_of(run):
    return OrderedDict((k, n) for k, n in run.get("chunks", []))

def execute(run, d, full=False, inputs=None, build_only=False, **kw):
    """returns obs: err, stage, warnings, dmap, files"""
    from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc
    from pyconform.dataflow import DataFlow
    obs = {"err": "", "stage": "", "msg": "", "warn": [], "dmap": [], "sizes": []}
    cwd = os.getcwd()
    out = os.path.join(d, "out"); os.makedirs(out, exist_ok=True)
    names = inputs if inputs is not None else write_inputs(run, d)
    os.chdir(out)
    try:
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            stage = "describe"
            try:
                ids = InputDatasetDesc("inp", names)
                ods = OutputDatasetDesc("out", spec_dict(run))
                stage = "build"
                df = DataFlow(ids, ods)
                obs["dmap"] = [{"i": str(a), "o": str(b)} for a, b in sorted(df.dimension_map.items())]
                stage = "run"
                if not build_only: df.execute(chunks=chunks_of(run), serial=True, history=run.get("history", False), deflate=run.get("deflate"), **kw)
            except Exception as e:
                obs.update(err=errname(e), stage=stage, msg=str(e)[:300])
            obs["warn"] = [[type(w.message).__name__, str(w.message)[:200]] for w in ws]
    finally:
        os.chdir(cwd)
    return collect(obs, out, run, full)

def collect(obs, out, run, full=False):
    """what is in the output directory"""
    digest_warnings(obs)
    obs["files"], obs["other"] = [], []
    for root, _, fs in os.walk(out):
        for f in sorted(fs):
            p = os.path.join(root, f)
            if f.endswith(".tmp.nc"): obs["other"].append(os.path.relpath(p, out)); continue
            try: o = read_file(p, full, run.get('loose', False))
            except Exception as e:
                obs["other"].append("unreadable:" + f); continue
            o["n"] = os.path.relpath(p, out)
            obs["files"].append(o)
    return obs

def execute_many(run, d, inputs, chunkings, rebuild=False):
    """one data flow executed several times; after each execution its files are moved away.  [(directory, error)]"""
    import shutil
    from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc
    from pyconform.dataflow import DataFlow
    out, cwd = [], os.getcwd()
    work = os.path.join(d, "work"); os.makedirs(work)
    os.chdir(work)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            df, err = None, ""
            try:
                ids = InputDatasetDesc("inp", inputs); ods = OutputDatasetDesc("out", spec_dict(run))
                df = DataFlow(ids, ods)
            except Exception as e: err = errname(e)
            for k, ch in enumerate(chunkings):
                e1 = err
                if df is not None:
                    try:
                        if rebuild and k: df = DataFlow(ids, ods)
                        df.execute(chunks=OrderedDict(sorted(ch.items())) if ch else {}, serial=True)
                    except Exception as e: e1 = errname(e)
                dk = os.path.join(d, "k%d" % k); os.makedirs(dk)
                shutil.move(work, os.path.join(dk, "out")); os.makedirs(work); os.chdir(work)
                out.append((dk, e1))
    finally: os.chdir(cwd)
    return out
