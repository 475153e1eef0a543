"""C31: functions of ocean columns use exactly the levels above the bottom, and pieces are put where they belong."""
import os, random, shutil
from lib import env, flowgen, flowprop as P, flowrun
from lib.flowgen import var, op, num, fn, st, NOU, unit
from props import c30
import pyconform.modules.commonfunctions  # registers the functions
MODULE = "Check_C31"
RULE = ("random conversions with the functions of the library of modules for ocean columns (bottom layer, layer differences, absorbed radiation, surface and volume means, sums of layers, sea fraction) over columns of any depth, "
        "and with those that put fields together (soil pools, land use, hemispheres, conditions, burnt fraction, spread profiles); missing cells, transposed depths and areas, parts of results, chunks, inverted axes; "
        "and requests to the nodes of their data flows")
REQUIRED_TAGS = ["POP_bottom_layer", "diff_axis1_ind0bczero_4d", "rsdoabsorb", "POP_surf_mean", "POP_3D_mean", "POP_bottom_layer_multadd", "POP_layer_sum_mult", "sftof", "get_soilpools", "reduce_lu", "expand_latlon", "hemisphere",
                 "cice_where", "masked_invalid", "burntFraction", "land", "no_ocean", "full_column", "some_missing", "rank", "dims", "sizes", "depth_transposed", "area_transposed", "other_levels", "units_joined", "second_year",
                 "time_chunked", "space_chunked", "inverted", "nested", "directed", "integers", "node_expr", "request_none", "request_dict", "request_tuple"]
F = {"p_chunk": 0.0}
def design(tier):
    return [{"module": "MC_Columns", "cfg": "MC_Columns.cfg" if tier == "quick" else "MC_Columns_thorough.cfg"}]
def scenarios(ck):
    ms = ["ocean", "pieces"]
    return P.plan(ck, [(m, 70, F) for m in ms] + [(m, 60, dict(F, p_chunk=1.0)) for m in ms] + [("node:" + m, 18, F) for m in ms],
                  [(m, 1500, F) for m in ms] + [(m, 1500, dict(F, p_chunk=1.0)) for m in ms] + [("node:" + m, 1500, F) for m in ms])

OCEAN = ["POP_bottom_layer", "diff_axis1_ind0bczero_4d", "rsdoabsorb", "POP_surf_mean", "POP_3D_mean", "POP_bottom_layer_multadd", "POP_layer_sum_mult", "sftof"]
PIECES = ["get_soilpools", "reduce_lu", "expand_latlon", "hemisphere", "cice_where", "masked_invalid", "burntFraction"]
class Fields(c30.Axes):
    def inputs(self):
        r, g = self.r, self.g
        self.which = r.sample(OCEAN if self.mode == "ocean" else PIECES, 3)
        g.dims = ["time", "lat", "lon"] + (["lev", "lev2"] if self.mode == "ocean" else ["pool", "use", "cat"])
        nz = r.choice([1, 2, 3, 3])
        g.size = {"time": r.choice([1, 2, 2, 3]), "lat": r.choice([1, 2, 2, 3]), "lon": r.choice([1, 2, 3]), "lev": nz, "lev2": nz, "pool": 3, "use": 4, "cat": r.choice([9, 9, 9, 10]), "d2": 2}
        if "burntFraction" in self.which: g.size.update(time=r.choice([2, 5, 13, 14, 25]), lat=r.choice([1, 2]), lon=1)
        if r.random() < 0.03: g.size["pool"] = 2
        if r.random() < 0.03: g.size["cat"] = 7
        if r.random() < 0.04: g.size["lev2"] = nz + 1
        self.tu = self.tunit()
        self.add("time", ["time"], [[30 * (k + 1), 1] for k in range(g.size["time"])], self.tu, "", "f")
        for d in g.dims[1:]:
            m = g.size[d]
            p = r.sample(range(-15, 16), m); p.sort(reverse=r.random() < 0.4)
            self.add(d, [d], [[x, 1] for x in p], {"n": {"lev": "m", "lev2": "m"}.get(d, "1"), "ref": [], "cal": ""}, "", "f")
        two = ["lat", "lon"] if r.random() < 0.7 else ["lon", "lat"]
        if r.random() < 0.03: two = ["lat"]
        if r.random() < 0.03: two = ["lat", "time"]
        def n2(dims):
            k = 1
            for d in dims: k *= g.size[d]
            return k
        w = r.random()
        depth = [[0 if w < 0.05 else nz if w < 0.15 else r.randint(0, nz), 1] for _ in range(n2(two))]
        if self.mode == "ocean":
            g.o["p_missing"] = 0.0
            self.add("KMT", two, depth, {"n": "1", "ref": [], "cal": ""}, "", r.choice(["i", "i", "f"]))
            if r.random() < 0.15 and self.inp[-1]["dt"] == "f": self.inp[-1]["c"] = [x if r.random() < 0.7 else [0, 0] for x in depth]
            a2 = ["lat", "lon"] if r.random() < 0.7 else ["lon", "lat"]
            self.add("TAREA", a2, [[r.randint(1, 5), 1] for _ in range(n2(a2))], {"n": "cm2", "ref": [], "cal": ""}, "", "f")
            self.add("dz", ["lev"], [[r.randint(1, 4), r.choice([1, 2])] for _ in range(nz)], {"n": r.choice(["cm", "m"]), "ref": [], "cal": ""}, "", "f")
            v = self.inp[-1]; v["c"] = [[a // flowgen.g(a, b), b // flowgen.g(a, b)] for a, b in v["c"]]
        d3, d4 = ["time", "lat", "lon"], ["time", "lev" if self.mode == "ocean" else "cat", "lat", "lon"]
        for k in range(4):
            dims = list([d3, d4][k % 2])
            if self.mode == "pieces" and k == 1 and "reduce_lu" not in self.which: dims = list(d3)
            if r.random() < 0.04: dims = r.choice([["time", "lat"], ["time", "lon"], d3, d4])
            elif r.random() < 0.06: a = dims[:]; r.shuffle(a); dims = a
            g.o["p_missing"] = 0.45
            fam = "len" if k < 2 and self.mode == "pieces" else r.choice(["temp", "len", "mflux"])
            self.add("v%d" % k, dims, None, {"n": r.choice(flowgen.FAM[fam]), "ref": [], "cal": ""}, r.choice(["", "", "", "up", "down"]), "i" if r.random() < 0.2 else "f", fam)
            if r.random() < 0.3: self.inp[-1]["infill"] = 1
        if self.mode == "pieces":
            ps = self.inp[-4]["pos"]
            for v in self.inp[-4:]:
                if r.random() < 0.95: v["pos"] = ps
            self.add("series", ["time"], None, {"n": "K", "ref": [], "cal": ""}, "", "f", "temp")
        g.unlim = ["time"] if r.random() < 0.85 else []
    def exprs(self):
        r, g = self.r, self.g
        V = {v["n"]: v for v in self.inp}
        f3 = lambda: V[r.choice(["v0", "v2"])] if r.random() < 0.97 else V["v1"]
        f4 = lambda: V[r.choice(["v1", "v3"] if self.mode == "ocean" else ["v3"])] if r.random() < 0.97 else V["v0"]
        def inner(v):
            e = var(v["n"])
            if r.random() < 0.15: e = r.choice([op("*", e, num(2)), op("-", e), fn("limit", e, above=num(2)), fn("up", e)])
            return e
        K, Z, A = var("KMT"), var("dz"), var("TAREA")
        out = []
        for i, n in enumerate(self.which):
            fam, pos, u = None, "", None
            v = f3()
            if n == "POP_bottom_layer": v = f4(); e = fn(n, K, inner(v)); d = ["time", "lat", "lon"]; fam = v["fam"]
            elif n in ("diff_axis1_ind0bczero_4d", "rsdoabsorb"):
                v = f4(); L = "lev2" if r.random() < 0.6 else "lev"
                e = fn(n, K, var(L), inner(v)); d = ["time", L, "lat", "lon"]; fam = v["fam"]
            elif n == "POP_surf_mean": e = fn(n, K, A, inner(v)); d = ["time"]; fam = v["fam"]
            elif n == "POP_3D_mean": v = f4(); e = fn(n, K, Z, A, inner(v)); d = ["time"]; fam = v["fam"]
            elif n == "POP_bottom_layer_multadd": v = f4(); e = fn(n, K, Z, inner(v)); d = ["time"]
            elif n == "POP_layer_sum_mult": v = f4(); e = fn(n, K, Z, inner(v)); d = ["time", "lat", "lon"]
            elif n == "sftof": e = fn(n, K); d = list(V["KMT"]["dims"]); v = V["KMT"]; u = unit("1")
            elif n == "get_soilpools":
                v = V["v0"]; o = V["v1"] if len(V["v1"]["dims"]) == 3 else V["v0"]
                p = [inner(v), inner(o), inner(r.choice([v, o]))]
                e = fn(n, *p, **{}); e["a"].append(var("pool")); d = ["time", "pool", "lat", "lon"]; fam = v["fam"]
            elif n == "reduce_lu": v = f4(); e = fn(n, inner(v), var("use")); d = ["time", "use", "lat", "lon"]; fam = v["fam"]
            elif n == "expand_latlon": v = V["series"]; e = fn(n, inner(v), var("lat"), var("lon")); d = ["time", "lat", "lon"]; fam = "temp"
            elif n == "hemisphere":
                ax = r.choice(["lat", "lat", "lon", "time"])
                e = fn(n, inner(v), dim=st(ax), dr=st(r.choice("<>"))); d = list(v["dims"]); fam = v["fam"]
                self.half = ax
            elif n == "cice_where":
                o = r.choice([V["v0"], V["v2"]])
                e = fn(n, inner(v), st(r.choice([">=", "<=", "==", "<", ">"])), num(r.randint(-3, 3)), inner(o), num(r.randint(-2, 2))); d = list(v["dims"]); fam = o["fam"]; v = o
            else: e = fn(n, inner(v)); d = list(v["dims"]); fam = v["fam"] if n != "burntFraction" else None
            pos = v["pos"]
            w = r.random()
            if w < 0.06: e = op("*", e, num(2))
            elif w < 0.12: e = op("-", e)
            elif w < 0.18: e = op("+", e, e)
            elif w < 0.22 and "lat" in d and n != "hemisphere": e, d = fn("mean", e, st("lat")), [x for x in d if x != "lat"]
            out.append(("o%d" % i, e, d, fam, pos, "f"))
        return out
    def run(self):
        run = super(Fields, self).run()
        r = self.r
        # halves of a dimension belong to no file with the whole one
        for v in run["vars"]:
            if v["kind"] == "def" and v["ast"]["t"] == "fn" and v["ast"]["n"] == "hemisphere" and r.random() < 0.9:
                ax = self.half
                v["dims"] = [x for x in v["dims"]]
        return run

def drive(scn, d):
    return c30.drive(scn, d, Fields)
