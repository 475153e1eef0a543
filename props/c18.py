"""C18: output headers carry the declared and the inherited metadata."""
import datetime, os, random, re, shutil
import numpy as np
from lib import flowprop as P, flowrun, flowgen as G
MODULE = "Check_C18"
RULE = ("random conversions with attributes of all kinds on variables and files, fill values, formats, types, compression of files and of the run, history on and off (twice with one data flow), "
        "complete, partial and blank units, and declarations the format has no room for")
REQUIRED_TAGS = ["written", "bad_header", "bad_level", "history", "override", "global", "fill", "own_history", "inherits_calendar", "inherits_units", "inherits_reference", "inherits_time_units", "second_execution",
                 "fmt_NETCDF4", "fmt_NETCDF4_CLASSIC", "fmt_NETCDF3_CLASSIC", "fmt_NETCDF3_64BIT_OFFSET", "fmt_NETCDF3_64BIT_DATA", "fmt_NETCDF3_64BIT", "level_0", "level_1", "level_2", "level_9",
                 "type_float", "type_double", "type_int", "type_real", "type_int64", "unlimited", "several_files", "skipped_file", "inverted", "given_data"]
F = {"p_range": 0.2, "p_bad": 0.0, "depth": 1, "p_data": 0.5, "nvars": [1, 2], "p_files": 0.4, "p_meta": 0.4, "p_skip": 0.05, "p_unit": 0.5}
def scenarios(ck):
    return P.plan(ck, [("run", 170, F), ("run", 60, dict(F, nodup=1, times=1))], [("run", 4000, F), ("run", 1000, dict(F, times=1))])

TYPES = {"f4": ["float", "real"], "f8": ["double"], "i4": ["int"], "i2": ["short"], "i8": ["int64"], "i1": ["byte"]}
FMTS = ["NETCDF4", "NETCDF4_CLASSIC", "NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF3_64BIT_DATA", "NETCDF3_64BIT"]
ATTRS = [("long_name", "Some long name, with (brackets) and 100%"), ("standard_name", "air_temperature"), ("comment", "a; b: c"), ("cell_methods", "time: mean"), ("missing_value", -999.5),
         ("flag_values", [1, 2, 3]), ("factor", 2.5), ("number", 7), ("weights", [0.5, 1.5]), ("history", "made by hand"), ("Conventions", "x"), ("name with space", "1"), ("grid_mapping", "crs"),
         ("title", "Überschrift"), ("notes", "line\nline")]
GATTRS = [("title", "A title"), ("institution", "NCAR"), ("version", 3), ("tracking", 1.5), ("levels", [1, 2, 3]), ("creation_date", "yesterday"), ("history", "of the file"), ("source", "m: n (o)"),
          ("_internal", "x"), ("direction", "up")]
def norm(x):
    """attribute value as text: kind and digits"""
    if isinstance(x, (str, bytes)): return "s:" + (x.decode() if isinstance(x, bytes) else x)
    a = np.asarray(x)
    if a.dtype.kind in "SU": return "s:" + ",".join(str(y) for y in a.ravel())
    return a.dtype.kind.replace("u", "i") + ":" + ",".join("%.7g" % float(y) for y in a.ravel())

def decorate(r, run, times):
    h = {"vars": [], "files": [], "history": r.random() < 0.4, "deflate": [r.choice([0, 1, 2, 5, 9])] if r.random() < 0.35 else []}
    if r.random() < 0.03: h["deflate"] = [r.choice([-1, 10, 99])]
    bad = r.random() < 0.08
    f3 = not run["unlim"]
    fmts = FMTS if f3 else FMTS[:2]
    one = "NETCDF4" if r.random() < 0.15 else r.choice(fmts) if r.random() < 0.6 else None
    for v in run["vars"]:
        if v["kind"] == "data" and v["ot"] == "i4" and (r.random() < 0.5 or one == "NETCDF4"): v["ot"] = r.choice(["i2", "i8", "i8", "i1"])
        v["attrs"] = [list(a) for a in r.sample(ATTRS, r.randint(0, 4))]
        v["fill"] = []
        if r.random() < 0.35: v["fillv"] = r.choice([-999, -99, 0]) if v["ot"][0] == "i" else r.choice([1e20, -999.0, -999, 0])
        if v["ot"] == "i1" and v.get("fillv"): v["fillv"] = -99
        if v.get("fillv") == 0: v["fill"] = [[0, 1]]
        v["type"] = r.choice(TYPES[v["ot"]])
    for f in run["files"]:
        fm = one or r.choice(fmts + [""])
        if fm: f["format"] = fm
        if r.random() < 0.6: f["gattrs"] = [list(a) for a in r.sample(GATTRS, r.randint(0, 4))]
        if r.random() < 0.5: f["deflate"] = r.choice([0, 1, 2, 3, 9])
        if bad and r.random() < 0.4:
            if r.random() < 0.5: f["deflate"] = r.choice([-1, 10])
            else: f["format"] = r.choice(["NETCDF5", "netcdf4", "HDF5"])
        h["files"].append({"n": f["n"], "fmt": f.get("format", ""), "deflate": [f["deflate"]] if f.get("deflate") is not None else [], "gattrs": [{"k": k, "v": norm(x)} for k, x in f.get("gattrs") or []]})
    if not bad:
        # types every format has
        if any(f.get("format", "") != "NETCDF4" for f in run["files"]):
            for v in run["vars"]:
                if v["type"] == "real": v["type"] = "float"
                if v["type"] == "int64": v["ot"], v["type"] = "i4", "int"
    return h

def read(o, d, t0, t1, run, h):
    """headers in the form the specification reads"""
    for f in o["files"]:
        g = dict((k, x) for k, x in f.pop("gattrs"))
        f["created"] = False
        c = g.get("creation_date", "")
        if re.match(r"^s:\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ$", c):
            t = datetime.datetime.strptime(c[2:], "%Y-%m-%dT%H:%M:%SZ")
            f["created"] = t0 - datetime.timedelta(seconds=2) <= t <= t1 + datetime.timedelta(seconds=2)
        f["gattrs"] = [{"k": k, "v": x} for k, x in g.items()]
        for v in f["vars"]:
            hist = dict(v["attrs"]).get("history", "")
            own = dict(next((w.get("attrs", []) for w in run["vars"] if w["n"] == v["n"]), [])).get("history")
            v["keepshistory"] = own is None or own in hist
            v["attrs"] = [{"k": k, "v": x} for k, x in v["attrs"]]
            if not v["zlib"]: v["level"] = 0

def drive(scn, d):
    r = random.Random(scn["seed"] + 7)
    kw = dict(scn["kw"]); times = kw.pop("times", 0); kw.pop("nodup", 0)
    out = []
    flowrun_attr, flowrun.attr_json = flowrun.attr_json, norm
    spec0 = flowrun.spec_dict
    flowrun.spec_dict = lambda run: _with(run, spec0)
    try:
        for run, dd in P.runs(dict(scn, kw=kw), d):
            h = decorate(r, run, times)
            spec = _with(run, spec0)
            for v in run["vars"]:
                a = spec[v["n"]]["attributes"]
                dt = np.dtype(v["ot"])
                h["vars"].append({"n": v["n"], "attrs": [{"k": k, "v": norm(x)} for k, x in a.items()], "type": v["type"], "fill": [norm(dt.type(v["fillv"]))] if v.get("fillv") is not None else []})
            run["deflate"] = h["deflate"][0] if h["deflate"] else None
            run["history"] = h["history"]
            t0 = datetime.datetime.utcnow()
            o = twice(run, dd, h) if times else flowrun.execute(run, dd, full=True)
            read(o, dd, t0.replace(microsecond=0), datetime.datetime.utcnow(), run, h)
            out.append({"kind": "run", "run": bare(run), "obs": o, "loose": run["loose"], "hdr": h, "second": bool(times)})
    finally:
        flowrun.attr_json, flowrun.spec_dict = flowrun_attr, spec0
    return out

def bare(run):
    """the run without what hdr describes (numbers that are not whole have no place in a record)"""
    n = {k: x for k, x in run.items() if k not in ("deflate", "history")}
    n["vars"] = [{k: x for k, x in v.items() if k not in ("attrs", "fillv")} for v in run["vars"]]
    n["files"] = [{k: x for k, x in f.items() if k not in ("gattrs", "deflate", "format")} for f in run["files"]]
    return n

def twice(run, dd, h):
    """the same data flow is executed before with the opposite request for history"""
    from pyconform.dataflow import DataFlow
    orig = DataFlow.execute
    def both(self, *a, **k):
        try: orig(self, *a, **dict(k, history=not h["history"], deflate=None))
        finally:
            for x in os.listdir("."):
                if os.path.isdir(x): shutil.rmtree(os.path.abspath(x))
                else: os.remove(x)
        return orig(self, *a, **k)
    DataFlow.execute = both
    try: return flowrun.execute(run, dd, full=True)
    finally: DataFlow.execute = orig

def _with(run, spec0):
    s = spec0(run)
    for v in run["vars"]:
        if "type" in v: s[v["n"]]["datatype"] = v["type"]
    for f in run["files"]:
        if f["owner"] in s and not f.get("format"): s[f["owner"]]["file"].pop("format", None)
    return s
