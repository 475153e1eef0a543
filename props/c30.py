"""C30: functions of a time axis take every step into the year or month it belongs to, and the bounds of cells meet."""
import os, random, shutil
from lib import env, flowgen, flowprop as P, flowrun, idx as X
from lib.flowgen import var, op, num, fn, st, NOU, unit
import pyconform.modules.commonfunctions  # registers the functions
MODULE = "Check_C30"
RULE = ("random conversions with the functions of the library of modules that go along whole axes: yearly means and monthly climatologies of any number of months with their times and bounds, years spread over their months, "
        "bounds of cells at any place with and without faces; missing cells, transposed axes, parts of results, chunks, inverted axes; and requests to the nodes of their data flows")
REQUIRED_TAGS = ["year", "year_time", "year_bounds", "climate", "climate_time", "climate_bounds", "spread", "spread_levels", "spread_time", "cells", "cells_begin", "cells_middle", "cells_end", "ends_cut", "faces_all", "faces_inner",
                 "faces_wrong", "incomplete_year", "no_year", "few_months", "month_missing", "short_climate", "zero_year", "rank", "levels", "spread_transposed", "time_free", "time_chunked", "space_chunked", "inverted", "nested",
                 "directed", "integers", "bounds_dimension", "node_expr", "request_none", "request_dict", "request_tuple"]
F = {"p_chunk": 0.0}
MODES = ["year", "clim", "spread", "cells"]
def design(tier):
    return [{"module": "MC_TimeAgg", "cfg": "MC_TimeAgg.cfg" if tier == "quick" else "MC_TimeAgg_thorough.cfg"}]
def scenarios(ck):
    ms = MODES
    return P.plan(ck, [(m, 50, F) for m in ms] + [(m, 40, dict(F, p_chunk=1.0)) for m in ms] + [("node:" + m, 20, F) for m in ms],
                  [(m, 500, F) for m in ms] + [(m, 500, dict(F, p_chunk=1.0)) for m in ms] + [("node:" + m, 500, F) for m in ms])

AXES = {"lat": "Y", "lon": "X", "lev": "Z", "lev2": "Z", "time": "T"}
DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
class Axes(object):
    def __init__(self, r, mode, **kw):
        self.r, self.mode, self.kw = r, mode, kw
        self.g = flowgen.Gen(r, p_bad=0.0, p_range=0.05, p_index=0.0)
        self.g.f4 = False; self.g.inp = []; self.inp = self.g.inp
    def add(self, *a, **kw):
        self.g.add(*a)
        self.inp[-1].update(kw)
        return self.inp[-1]
    def tunit(self): return {"n": "days", "ref": [self.r.choice([1850, 1999, 2000]), 1, 1, 0], "cal": "noleap"}
    def inputs(self):
        r, g = self.r, self.g
        g.dims = ["time", "lat", "lon"] + (["lev"] if r.random() < 0.35 else [])
        g.size = {"lat": r.choice([1, 2, 3]), "lon": r.choice([1, 2, 2]), "lev": r.choice([2, 3]), "d2": 2}
        if self.mode == "cells" and r.random() < 0.85: g.size.update(lat=r.choice([2, 3, 4]), lon=r.choice([2, 3]))
        y0 = r.choice([0, 1, 1, 2])
        if self.mode in ("year", "clim"):
            n = r.choice([12, 24, 24, 24, 36, 13, 26, 5, 30]); g.size["time"] = n
            c = []; t = 365 * y0
            bnds = []
            for k in range(n): bnds += [t, t + DAYS[k % 12]]; t += DAYS[k % 12]; c.append(t)
        else:
            n = r.choice([1, 2, 2, 3] if self.mode == "spread" else [2, 3, 4]); g.size["time"] = n
            c = [365 * (y0 + k) for k in range(n)]
            if r.random() < 0.15: c[-1] += 10
            if r.random() < 0.15: r.shuffle(c)
            bnds = []
            for t in c: bnds += [t - 365, t]
        self.tu = self.tunit()
        w = r.random()
        self.add("time", ["time"], [[x, 1] for x in c], self.tu, "", "f")
        self.add("time_bnds", ["time", "d2"], [[x, 1] for x in bnds], self.tu, "", "f")
        for d in g.dims[1:]:
            m = g.size[d]
            p = r.sample(range(-9, 10), m); p.sort(reverse=r.random() < 0.4)
            dt = "i" if r.random() < 0.25 else "f"
            self.add(d, [d], [[x, r.choice([1, 1, 2]) if dt == "f" else 1] for x in p], {"n": {"lat": "1", "lon": "1", "lev": r.choice(["m", "km"])}[d], "ref": [], "cal": ""}, r.choice(["", "", "up", "down"]) if d == "lev" else "", dt)
            for v in self.inp[-1:]: v["c"] = [[a // flowgen.g(a, b), b // flowgen.g(a, b)] for a, b in v["c"]]
        lv = g.dims[3:]
        for k in range(2):
            dims = ["time"] + lv + ["lat", "lon"]
            if r.random() < 0.12: dims = r.choice([["time", "lat"], ["time"], ["lat", "time", "lon"]])
            elif self.mode in ("spread",) and r.random() < 0.5: dims = list(dims); r.shuffle(dims)
            elif r.random() < 0.2: a = dims[1:]; r.shuffle(a); dims = dims[:1] + a
            self.g.o["p_missing"] = 0.5
            fam = r.choice(["temp", "len", "mflux"])
            self.add("v%d" % k, dims, None, {"n": r.choice(flowgen.FAM[fam]), "ref": [], "cal": ""}, r.choice(["", "", "up", "down"]), "i" if r.random() < 0.2 else "f", fam)
            if r.random() < 0.3: self.inp[-1]["infill"] = 1
        # fewer missing cells in long series
        for v in self.inp[-2:]:
            if len(v["c"]) > 40: v["c"] = [([r.randint(-4, 4), 1] if x[1] == 0 and r.random() < 0.85 else x) for x in v["c"]]
        if self.mode == "cells":
            ax = self.ax = r.choice([d for d in g.dims[1:]])
            n = g.size[ax]
            m = r.choice([n + 1, n + 1, n + 1, max(n - 1, 1), max(n - 1, 1), n])
            av = next(v for v in self.inp if v["n"] == ax)
            g.size["face"] = m
            p = r.sample(range(-9, 10), m)
            self.add("edges", ["face"], [[x, r.choice([1, 1, 2])] for x in p], {"n": "km" if av["un"]["n"] == "m" and r.random() < 0.4 else av["un"]["n"] if r.random() < 0.95 else "K", "ref": [], "cal": ""}, "", r.choice(["f", "f", "i"]))
            v = self.inp[-1]; v["c"] = [[a, 1] if v["dt"] == "i" else [a // flowgen.g(a, b), b // flowgen.g(a, b)] for a, b in v["c"]]
        g.unlim = ["time"] if r.random() < 0.85 else []
    def exprs(self):
        """(name, expression, dimensions, units, direction, kind)"""
        r, g = self.r, self.g
        out = []
        T = lambda v: [d for d in v["dims"]]
        bd = lambda p=0.3: {"bdim": st(r.choice(["d2", "bnds", "bnds"]))} if r.random() < p else {}
        bname = lambda kw, default: kw["bdim"]["v"] if "bdim" in kw else default
        data = self.inp[[v["n"] for v in self.inp].index("v0"):][:2]
        w = r.random()
        def some(e, dims, v):
            w = r.random()
            if w < 0.08: e = op("*", e, num(2))
            elif w < 0.14: e = op("-", e)
            elif w < 0.2: e = op("+", e, e)
            elif w < 0.26: e = fn("limit", e, below=num(0))
            elif w < 0.3: e = fn("down", e)
            elif w < 0.34 and "lat" in dims: e, dims = fn("mean", e, st("lat")), [d for d in dims if d != "lat"]
            return e, dims
        def inner(v):
            e = var(v["n"])
            if r.random() < 0.15: e = r.choice([op("*", e, num(2)), op("-", e), fn("limit", e, above=num(2)), fn("up", e)])
            return e
        if self.mode == "year":
            kw = bd()
            out.append(("time", fn("monthtoyear_noleap_time", var("time_bnds")), ["time"], "T", "", "f"))
            out.append(("time_bnds", fn("monthtoyear_noleap_timebnds", var("time_bnds"), **kw), ["time", bname(kw, "d2")], "T", "", "f"))
            for k, v in enumerate(data[:r.choice([1, 1, 2])]):
                e, d = some(fn("monthtoyear_noleap", inner(v)), T(v), v)
                out.append(("o%d" % k, e, d, v["fam"], v["pos"], "f"))
        elif self.mode == "clim":
            kw = bd()
            if g.size["time"] < 12 and r.random() < 0.7: out.append(("time_bnds", var("time_bnds"), ["time", "d2"], "T", "", "f"))
            else: out.append(("time", fn("oclim_time", var("time_bnds")), ["time"], "T", "", "f"))
            if out[-1][0] == "time": out.append(("time_bnds", fn("oclim_timebnds", var("time"), **kw), ["time", bname(kw, "d2")], "T", "", "f"))
            for k, v in enumerate(data[:r.choice([1, 1, 2])]):
                e, d = some(fn("oclim", inner(v)), T(v), v)
                out.append(("o%d" % k, e, d, v["fam"], v["pos"], "f"))
        elif self.mode == "spread":
            out.append(("time", fn("yeartomonth_time", var("time")), ["time"], "T", "", "f"))
            for k, v in enumerate(data[:r.choice([1, 1, 2])]):
                if "lev" in v["dims"]: e = fn("yeartomonth_data3D", inner(v), var("time"), var("lat"), var("lon"), var("lev")); d = ["time", "lev", "lat", "lon"]
                else: e = fn("yeartomonth_data", inner(v), var("time"), var("lat"), var("lon")); d = ["time", "lat", "lon"]
                e, d = some(e, d, v)
                out.append(("o%d" % k, e, d, v["fam"], v["pos"], "f"))
        else:
            for k, ax in enumerate([self.ax] + r.sample(g.dims, 1)):
                kw = bd(0.7)
                if r.random() < 0.7: kw["location"] = num(r.choice([0, 0, 1, 2, 2, 2]) if r.random() < 0.97 else 3)
                if r.random() < 0.5: kw["endpoints"] = num(r.choice([0, 1]))
                if k == 0 and r.random() < 0.55: kw["idata"] = var("edges") if r.random() < 0.9 else op("*", var("edges"), num(2))
                av = next(v for v in self.inp if v["n"] == ax)
                e = var(ax) if r.random() < 0.8 else r.choice([op("*", var(ax), num(2)), op("-", var(ax)), fn("up", var(ax))])
                out.append(("o%d" % k, fn("bounds", e, **kw), [ax, bname(kw, "bnds")], "T" if ax == "time" else None, av["pos"], "f"))
            if r.random() < 0.5:
                # bounds of bounds
                if r.random() < 0.2: out.append(("o2", fn("bounds", var("v0")), T(data[0]) + ["bnds"], None, "", "f"))
                elif r.random() < 0.5: v = data[0]; out.append(("o2", var(v["n"]), T(v), v["fam"], v["pos"], "f"))
            else:
                e = op("*", fn("bounds", var("lat"), bdim=st("d2")), fn("bounds", var("lon"), bdim=st("d2")))
                out.append(("o2", e, ["lat", "d2", "lon"], None, "", "f"))
        return out
    def run(self):
        r, g = self.r, self.g
        self.inputs()
        om = {}
        for d in g.dims + ["d2", "bnds"]: om[d] = d if r.random() < 0.7 or d == "bnds" else d + "_o"
        g.omap = om
        vs = []
        made = self.exprs()
        coords = r.random() < 0.85
        for d in g.dims:
            if any(n == d for n, *_ in made): continue
            if not coords and d != "time": continue
            if not coords and r.random() < 0.5: continue
            iv = next(v for v in self.inp if v["n"] == d)
            v = g.outvar(om[d], var(d), [d], "f", iv["un"])
            v["axis"] = d in AXES; v["axisname"] = AXES.get(d, "")
            if r.random() < 0.3: v["dir"] = r.choice(["increasing", "decreasing"])
            v["pos"] = ""; v["vmin"] = v["vmax"] = []; v["ot"] = "f8"
            vs.append(v)
        for n, e, dims, fam, pos, dt in made:
            if fam == "T": v = g.outvar(n, e, dims, "f", self.tu)
            elif fam: v = g.outvar(n, e, dims, "f", None, fam)
            else: v = g.outvar(n, e, dims, "f", None, None, r.choice([unit(""), dict(NOU)]))
            v["ot"] = "f8"
            if pos and r.random() < 0.3: v["pos"] = r.choice(["up", "down"])
            elif not pos and r.random() < 0.9: v["pos"] = ""
            if n == "time":
                v["n"] = om["time"]; v["axis"] = True; v["axisname"] = "T"; v["pos"] = ""; v["vmin"] = v["vmax"] = []
                if r.random() < 0.3: v["dir"] = r.choice(["increasing", "decreasing"])
            if n == "time_bnds": v["pos"] = ""; v["vmin"] = v["vmax"] = []
            for w in vs:
                if w["n"] == v["n"]: v["n"] += "_2"
            vs.append(v)
        if r.random() < 0.93 and any("bnds" in v["dims"] for v in vs):
            # the length of a dimension that no input has
            vs.append(g.blank("g0", kind="data", dims=["bnds"], shape=[2], c=[[0, 1], [1, 1]], ot="i4", u=dict(NOU)))
        mains = [v["n"] for v in vs if v["n"][0] == "o"] or [vs[-1]["n"]]
        fs = [{"n": "f%d.nc" % k, "owner": n, "meta": []} for k, n in enumerate(mains)]
        if r.random() < 0.3: fs.append({"n": "ft.nc", "owner": next((v["n"] for v in vs if v["n"].startswith("time_bnds")), vs[0]["n"]), "meta": []})
        if len({f["owner"] for f in fs}) < len(fs): fs.pop()
        r.shuffle(vs); r.shuffle(fs)
        for i, n in enumerate(sorted(v["n"] for v in vs)): next(v for v in vs if v["n"] == n)["rank"] = i
        ch = []
        if r.random() < self.kw.get("p_chunk", 0):
            for d in r.sample(g.dims + ["d2"], r.randint(1, 3)): ch.append([om[d], r.choice([1, 2, 3]) if d != "time" else r.choice([1, 2, 6, 12, 12])])
        return {"inp": [dict(v, fam=v["fam"] or "", f=[0] if r.random() < 0.8 or v["n"] not in g.dims else [0, 1]) for v in self.inp], "unlim": g.unlim, "vars": vs, "files": fs, "chunks": ch, "loose": False}

def drive(scn, d, make=Axes):
    r = random.Random(scn["seed"])
    out = []
    mode = scn["s"].split(":")[-1]
    for k in range(scn["n"]):
        run = make(random.Random(r.randint(0, 10 ** 9)), mode, **scn["kw"]).run()
        dd = os.path.join(d, "r%d" % k); os.makedirs(dd)
        if scn["s"].startswith("node:"):
            g, _ = P.graph_of(run, dd, r)
            for n in g.nodes:
                if n["ast"]["t"] == "var": continue
                for _ in range(2): out.append(P.ask(g, n, r, ints=0.0))
        else: out.append(P.rec(run, flowrun.execute(run, dd)))
        shutil.rmtree(dd, ignore_errors=True)
    return out
