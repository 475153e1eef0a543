"""C32: the cells of a map get the tiles of land that belong to them, and regions, uses and ages are those of the field."""
import os, random, shutil
from lib import env, flowgen, flowprop as P, flowrun
from lib.flowgen import var, op, num, fn, st, NOU, unit
from props import c30
import pyconform.modules.commonfunctions  # registers the functions
import pyconform.modules.CLM_landunit_to_CMIP6_Lut
import pyconform.modules.CLM_pft_to_CMIP6_vegtype
MODULE = "Check_C32"
LUT, PFT, WOOD, BASIN, ZONAL, AGE = "CLM_landunit_to_CMIP6_Lut", "CLM_pft_to_CMIP6_vegtype", "get_nonwoodyveg", "ocean_basin", "zonalmean", "ageofair"
RULE = ("random conversions with the functions of the library of modules that put the land units and plant types of a land grid on a map (any lists of grid cells, places, kinds, weights, tiles in use or not), "
        "that make uses of land from percentages, basins from regions, zonal means and ages of air; missing cells, transposed fields, directions, parts of results, chunks, inverted axes; and requests to the nodes of their data flows")
REQUIRED_TAGS = [LUT, PFT, WOOD, BASIN, ZONAL, AGE, "veg", "crop", "urban", "pasture", "all", "plants_grass", "plants_shrub", "plants_tree", "not_listed", "no_tile", "several_tiles", "idle_tile", "other_kind", "no_vegetation", "tile_elsewhere",
                 "field_transposed", "some_missing", "nothing", "crops", "no_land", "land_transposed", "age_between", "age_ahead", "age_transposed", "rank", "dims", "sizes", "time_chunked", "space_chunked", "inverted", "nested", "directed", "integers",
                 "node_expr", "request_none", "request_dict", "request_tuple"]
F = {"p_chunk": 0.0}
def design(tier):
    return [{"module": "MC_Subgrid", "cfg": "MC_Subgrid.cfg" if tier == "quick" else "MC_Subgrid_thorough.cfg"}]
def scenarios(ck):
    ms = ["tiles", "uses"]
    return P.plan(ck, [(m, 70, F) for m in ms] + [(m, 60, dict(F, p_chunk=1.0)) for m in ms] + [("node:tiles", 10, F), ("node:uses", 18, F)],
                  [(m, 1500, F) for m in ms] + [(m, 1500, dict(F, p_chunk=1.0)) for m in ms] + [("node:" + m, 1500, F) for m in ms])

ONE = {"n": "1", "ref": [], "cal": ""}
class Tiles(c30.Axes):
    def series(self):
        r, g = self.r, self.g
        self.tu = self.tunit()
        self.add("time", ["time"], [[30 * (k + 1), 1] for k in range(g.size["time"])], self.tu, "", "f")
        for d in g.dims[1:]:
            m = g.size[d]
            p = r.sample(range(-15, 16), m); p.sort(reverse=r.random() < 0.4)
            self.add(d, [d], [[x, 1] for x in p], {"n": {"lev": "m", "lev2": "m"}.get(d, "1"), "ref": [], "cal": ""}, "", "f")
        g.unlim = ["time"] if r.random() < 0.85 else []
    def field(self, n, dims, fam=None, missing=0.4, dt=None, pos=None):
        r = self.r
        fam = fam or r.choice(["temp", "len", "mflux"])
        self.g.o["p_missing"] = missing
        self.add(n, dims, None, {"n": r.choice(flowgen.FAM[fam]), "ref": [], "cal": ""}, r.choice(["", "", "", "up", "down"]) if pos is None else pos, dt or ("i" if r.random() < 0.2 else "f"), fam)
        v = self.inp[-1]
        if r.random() < 0.3: v["infill"] = 1
        return v
    def nums(self, n, dims, c, dt="f", un=None):
        self.add(n, dims, [[x, 1] for x in c], un or dict(ONE), "", dt)
        return self.inp[-1]
    def inputs(self):
        (self.tiles if self.mode == "tiles" else self.uses)()
    def tiles(self):
        r, g = self.r, self.g
        self.which = r.choice([[LUT, LUT, PFT], [LUT, PFT, PFT]])
        g.dims = ["time", "lat", "lon", "use"]
        ny, nx = r.choice([1, 2, 2, 3]), r.choice([1, 2, 2, 3])
        g.size = {"time": r.choice([1, 2, 2, 3]), "lat": ny, "lon": nx, "use": 4 if r.random() < 0.95 else 3, "d2": 2}
        self.series()
        cells = [(y, x) for y in range(ny) for x in range(nx)]
        r.shuffle(cells)
        w = r.random()
        listed = [c for c in cells if r.random() < (1.0 if w < 0.3 else 0.75)] or cells[:1]
        if r.random() < 0.2: listed.append((ny + 1, 0))
        if r.random() < 0.1: listed.append(listed[0])
        lon = {x: 10 * x + 5 for x in range(nx)}; lat = {y: 3 * y - 4 for y in range(ny + 2)}
        if r.random() < 0.1 and nx > 1: lon[1] = lon[0]
        g.size["gc"] = len(listed)
        it = lambda: r.choice(["i", "i", "f"])
        self.nums("ixy", ["gc"], [x + 1 for y, x in listed], it()); self.nums("jxy", ["gc"], [y + 1 for y, x in listed], it())
        self.nums("glon", ["gc"], [lon[x] for y, x in listed]); self.nums("glat", ["gc"], [lat[y] for y, x in listed])
        # land units: at most one of vegetation and of crops in use at a place
        units = []
        for y, x in cells + [(ny + 1, 0)]:
            for k in r.sample([1, 1, 2, 3, 7, 7, 8, 9, 9], r.randint(0, 5)):
                act, wt = int(r.random() < 0.8), r.choice([0, 1, 1, 2, 3])
                if k in (1, 2) and act and wt and r.random() < 0.98 and any(u[0] == lon[x] and u[1] == lat[y] and u[2] == k and u[3] and u[4] for u in units): continue
                units.append((lon[x], lat[y], k, act, wt))
        if r.random() < 0.3: units.append((777, 1, 1, 1, 1))
        units = units or [(lon[0], lat[0], 7, 1, 1)]
        r.shuffle(units); units = units[:14]
        units = self.weigh(units, 4, lambda u: (u[0], u[1]) if 7 <= u[2] <= 9 and u[3] and u[4] else None)
        g.size["lu"] = len(units)
        for i, n in enumerate(["llon", "llat", "ltype", "lact", "lwt"]): self.nums(n, ["lu"], [u[i] for u in units], "f" if i in (0, 1, 4) else it())
        pf = []
        for y, x in cells:
            for k in r.sample(range(0, 17), r.randint(0, 6)): pf.append((lon[x], lat[y], int(r.random() < 0.8), k, r.choice([0, 1, 1, 2]), r.choice([1, 1, 2, 4, 5])))
        pf = pf or [(lon[0], lat[0], 1, 3, 1, 1)]
        if r.random() < 0.3: pf.append((777, 1, 1, 3, 1, 1))
        r.shuffle(pf); pf = pf[:18]
        pf = self.weigh(pf, 5, lambda u: (u[0], u[1], 1 if u[3] < 9 else 2 if u[3] < 12 else 3) if 1 <= u[3] <= 14 and u[2] and u[4] else None)
        g.size["pf"] = len(pf)
        for i, n in enumerate(["plon", "plat", "pact", "ptype", "pwg", "pwl"]): self.nums(n, ["pf"], [u[i] for u in pf], "f" if i in (0, 1, 4, 5) else it())
        for k in range(4):
            d = ["time", ["lu", "pf"][k % 2]]
            if r.random() < 0.25: d.reverse()
            if r.random() < 0.02: d = r.choice([["time", "gc"], ["time", "lat"], d[:1]])
            self.field("v%d" % k, d, missing=r.choice([0.0, 0.0, 0.5, 1.0]))
    def weigh(self, tiles, at, group):
        """weights whose shares in a cell are exact numbers (of whatever precision)"""
        r = self.r
        tiles = [list(t) for t in tiles]
        for k in {group(t) for t in tiles} - {None}:
            of = [t for t in tiles if group(t) == k]
            total = r.choice([n for n in (1, 2, 4, 8, 16, 32) if n >= len(of)][:2])
            cuts = [0] + sorted(r.sample(range(1, total), len(of) - 1)) + [total]
            for t, a, b in zip(of, cuts, cuts[1:]): t[at] = b - a
        return tiles
    def uses(self):
        r, g = self.r, self.g
        self.which = r.sample([WOOD, BASIN, ZONAL, AGE], 3)
        g.dims = ["time", "lat", "lon", "lev", "use", "basin"]
        g.size = {"time": r.choice([1, 2, 2, 3]), "lat": r.choice([1, 2, 2]), "lon": r.choice([1, 2, 3]), "lev": r.choice([1, 2, 3]), "use": 4 if r.random() < 0.95 else 3, "basin": 3 if r.random() < 0.95 else 2,
                  "pft": r.choice([15, 15, 17]) if r.random() < 0.95 else 14, "cft": r.choice([2, 3]) if r.random() < 0.95 else 1, "reg": r.choice([2, 3]) if r.random() < 0.95 else 1, "comp": r.choice([1, 2, 3]), "d2": 2}
        if AGE in self.which: g.size["time"] = r.choice([1, 2, 3, 4, 5])
        self.series()
        if WOOD in self.which:
            d = ["time", "pft", "lat", "lon"]
            if r.random() < 0.08: d = r.choice([["time", "lat", "lon"], ["time", "pft", "lon", "lat"]])
            self.field("nat", d, "one", r.choice([0.0, 0.3]))
            d = ["time", "cft", "lat", "lon"]
            if r.random() < 0.15: d = r.choice([["time", "lat", "lon"], ["time", "cft", "lon", "lat"], ["lat", "cft", "time", "lon"], ["cft", "time", "lat", "lon"]])
            self.field("crops", d, "one", 0.4)
            d = ["lat", "lon"] if r.random() < 0.7 else ["lon", "lat"]
            if r.random() < 0.04: d = r.choice([["lat"], ["lat", "time"]])
            n = 1
            for x in d: n *= g.size[x]
            c = [r.choice([[0, 1], [1, 1], [1, 2], [1, 1], [2, 1], [0, 0]]) for _ in range(n)]
            self.add("land", d, c, dict(ONE), "", "f"); self.inp[-1]["infill"] = int(r.random() < 0.3)
        if BASIN in self.which:
            d = ["time", "reg", "comp", "lev", "lat"]
            if r.random() < 0.1: d = r.choice([["time", "reg", "lev", "lat"], ["time", "reg", "comp", "lon", "lat"]])
            self.field("moc", d)
        if ZONAL in self.which:
            d = ["time", "lev", "lat", "lon"]
            if r.random() < 0.3: r.shuffle(d)
            if r.random() < 0.08: d = d[:3]
            self.field("zon", d)
        if AGE in self.which:
            n = g.size["time"]
            m = r.randint(1, 12); y = r.choice([1999, 2000, 1850]); c = []
            for _ in range(n):
                c.append(10000 * y + 100 * m + 1)
                m += r.choice([1, 1, 2, 5, 12])
                y, m = y + (m - 1) // 12, (m - 1) % 12 + 1
            self.nums("date", ["time"], c, r.choice(["i", "f"])).pop("nd", None)
            d = ["time", "lev", "lat"]
            if r.random() < 0.3: r.shuffle(d)
            if r.random() < 0.05: d = r.choice([["time", "lat", "lon"], ["time", "lev"]])
            self.field("spc", d, missing=r.choice([0.0, 0.3]))
            v = self.inp[-1]
            # the reference grows
            if set(d) == {"time", "lev", "lat"} and (n == 1 or r.random() < 0.95):
                sh = [g.size[x] for x in d]
                ref = sorted(r.sample(range(-8, 9), n))
                for k in range(n):
                    i = 0
                    for x, s in zip(d, sh): i = i * s + (k if x == "time" else 0)
                    if v["c"][i][1] != 0 or r.random() < 0.5: v["c"][i] = [ref[k], 1]
        if not any(v["n"] in ("nat", "moc", "zon", "spc") for v in self.inp): self.field("zon", ["time", "lev", "lat", "lon"])
    def exprs(self):
        r, g = self.r, self.g
        V = {v["n"]: v for v in self.inp}
        def inner(v):
            e = var(v["n"])
            if r.random() < 0.15: e = r.choice([op("*", e, num(2)), op("-", e), fn("limit", e, above=num(2)), fn("up", e)])
            return e
        out = []
        for i, n in enumerate(self.which):
            fam, pos = None, ""
            if n in (LUT, PFT):
                v = V[r.choice(["v0", "v2"] if (n == LUT) == (r.random() < 0.97) else ["v1", "v3"])]
                names = ["time", "lat", "lon", "ixy", "jxy", "glon", "glat", "llon", "llat", "ltype"] + (["lact", "lwt", "use"] if n == LUT else ["plon", "plat", "pact", "ptype", "pwg", "pwl"])
                k = r.choice(["veg", "crop", "urban", "urban", "pasture", "all", "all"]) if n == LUT else r.choice(["grass", "shrub", "tree", "tree"])
                e = fn(n, inner(v), st(k)); e["a"] += [var(x) for x in names]
                d = ["time"] + (["use"] if k == "all" else []) + ["lat", "lon"]; fam = v["fam"]
            elif n == WOOD:
                v = V["nat"]; e = fn(n, inner(v), inner(V["crops"]), var("land"), var("use")); d = ["time", "use", "lat", "lon"]; fam = "one"
            elif n == BASIN:
                v = V["moc"]; e = fn(n, inner(v), num(r.randrange(g.size["comp"]) if r.random() < 0.95 else g.size["comp"]), var("basin")); d = ["time", v["dims"][-1], v["dims"][-2], "basin"]; fam = v["fam"]
            elif n == ZONAL:
                v = V["zon"]; e = fn(n, inner(v)); d = v["dims"][:3]; fam = v["fam"]
            else:
                v = V["spc"]; e = fn(n, inner(v), var("date"), var("time"), var("lat"), var("lev")); d = ["time", "lev", "lat"]
            pos = v["pos"] if n != AGE else ""
            w = r.random()
            if w < 0.06: e = op("*", e, num(2))
            elif w < 0.12: e = op("-", e)
            elif w < 0.18: e = op("+", e, e)
            elif w < 0.22 and "lat" in d: e, d = fn("mean", e, st("lat")), [x for x in d if x != "lat"]
            out.append(("o%d" % i, e, list(d), fam, pos, "f"))
        return out
def drive(scn, d):
    return c30.drive(scn, d, Tiles)
