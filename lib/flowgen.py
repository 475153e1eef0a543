"""Random conversions: input variables, output variables with definitions and declarations, files, chunks.
An abstract interpretation of the expression being built (dimensions, exponents, kind of number, direction) keeps
most conversions meaningful; a chosen share is meaningless on purpose.  The specification alone decides which."""
import random
from . import idx as X

FAM = {
    "temp": ["K", "degC", "degF"], "len": ["m", "cm", "km", "mm"], "mflux": ["kg m-2 s-1", "g m-2 s-1"],
    "one": ["1", "%", "g/kg"], "press": ["Pa", "hPa"], "dur": ["s", "min", "hour", "day"], "wflux": ["W m-2", "kW m-2"],
    "area": ["m2", "cm2"], "speed": ["m s-1", "km/h"],
}
FAMS = sorted(FAM)
CALS = ["standard", "noleap", "360_day", "all_leap", "proleptic_gregorian", ""]
DIMS = ["lat", "lon", "lev", "time"]
NOU = {"has": False, "n": "", "ref": [], "cal": ""}

def unit(n, has=True): return {"has": has, "n": n, "ref": [], "cal": ""}
def tref(n, y, m, d, s, cal): return {"has": True, "n": n, "ref": [y, m, d, s], "cal": cal}
def num(v, k="i", den=1): return {"t": "num", "v": [v, den], "k": k}
def var(n, x=None): return {"t": "var", "n": n, "x": x or []}
def op(n, *a): return {"t": "op", "n": n, "a": list(a)}
def fn(n, *a, **kw): return {"t": "fn", "n": n, "a": list(a), "kw": [{"n": k, "v": kw[k]} for k in kw]}
def st(s): return {"t": "str", "v": s}

DEFAULTS = dict(p_missing=0.3, p_pos=0.35, p_bad=0.06, p_chunk=0.0, p_meta=0.5, p_files=0.3, p_dir=0.35, p_range=0.2, p_data=0.25,
                p_index=0.15, p_unit=0.75, p_int=0.3, p_f4=0.15, p_unlim=0.3, p_skip=0.08, p_reduce=0.25, depth=3, nvars=(1, 3), p_rename=0.5,
                p_shuffle=0.6, p_nocoord=0.1, p_time=0.5, p_badchunk=0.0, p_up=0.12, p_fn=0.35, p_mean=0.0, p_big=0.0, fams=None, p_gcd=0.4, p_tunit=0.1, p_fill=0.15, p_flat=0.03)

class Gen(object):
    def __init__(self, rng, **kw):
        self.rng = rng
        self.o = dict(DEFAULTS); self.o.update(kw)
    def p(self, name): return self.rng.random() < self.o[name]

    # ---- input variables --------------------------------------------------------------------------
    def inputs(self):
        r = self.rng
        nd = r.choice([1, 2, 2, 3, 3])
        self.dims = r.sample(DIMS, nd)
        sizes = r.sample([2, 3, 4], nd) if r.random() < 0.7 else [r.choice([1, 2, 3]) for _ in range(nd)]
        self.size = dict(zip(self.dims, sizes))
        self.inp = []
        self.unlim = ["time"] if "time" in self.dims and self.p("p_unlim") else []
        self.f4 = self.p("p_f4")
        # coordinates
        for d in self.dims:
            n = self.size[d]
            if d == "time":
                cal = r.choice(CALS)
                u = {"n": r.choice(["days", "hours"]), "ref": [r.choice([1850, 2000, 1999, 2004]), r.randint(1, 12), r.randint(1, 28), r.choice([0, 0, 21600])], "cal": cal}
            else: u = {"n": r.choice(FAM["len"]) if d == "lev" else "1", "ref": [], "cal": ""}
            c = sorted(r.sample(range(0, 12), n)); 
            if r.random() < 0.4: c.reverse()
            if n > 1 and self.p("p_flat"):
                i = r.randrange(n - 1); c[i] = c[i + 1]
            self.add(d, [d], [[x, 1] for x in c], u, "", "f")
        fams = self.o["fams"] or [r.choice(FAMS) for _ in range(2)] + (["one"] if r.random() < 0.5 else [])
        for k in range(r.randint(2, 4)):
            dims = [d for d in self.dims if r.random() < 0.7]
            r.shuffle(dims)
            fam = r.choice(fams)
            dt = "i" if self.p("p_int") else "f"
            self.add("v%d" % k, dims, None, {"n": r.choice(FAM[fam]), "ref": [], "cal": ""}, r.choice(["up", "down"]) if self.p("p_pos") else "", dt, fam)
        if r.random() < 0.1:
            self.inp[-1]["un"] = {"n": "", "ref": [], "cal": "", "has": r.random() < 0.5}
            # no units at all: without dimension
            self.inp[-1]["fam"] = None if self.inp[-1]["un"]["has"] else "one"

    def add(self, n, dims, c, u, pos, dt, fam=None):
        r = self.rng
        shape = [self.size[d] for d in dims]
        if c is None:
            m = 1
            for s in shape: m *= s
            den = 1 if dt == "i" else r.choice([1, 1, 2, 4])
            big = 40 if self.p("p_big") else 6
            c = [[r.randint(-big, big), den] for _ in range(m)]
            c = [[a // g(a, b), b // g(a, b)] for a, b in c]
            # (a missing integer without dimensions has no type of its own in numpy)
            if self.p("p_missing") and (dt == "f" or m > 1): c = c[:1] * (dt == "i") + [[0, 0] if r.random() < 0.3 else x for x in (c[1:] if dt == "i" else c)]
        v = {"n": n, "dims": dims, "shape": shape, "dt": dt, "un": dict(u), "pos": pos, "c": c, "fam": fam}
        if dt == "f" and self.f4 and fam: v["nd"] = "f4"
        if dt == "i": v["nd"] = r.choice(["i4", "i4", "i2", "i8"])
        self.inp.append(v)

    # ---- expressions: returns (ast, dims, pos, dt) ---------------------------------------------------
    def leaf(self, fam):
        r = self.rng
        cs = [v for v in self.inp if v["fam"] == fam]
        if not cs: return None
        v = r.choice(cs)
        x = []
        dims = list(v["dims"])
        if dims and self.p("p_index"):
            nd = []
            for i, d in enumerate(dims):
                w = r.random()
                if w < 0.3: x.append(X.it(r.randint(-v["shape"][i], v["shape"][i] - 1)))
                else:
                    nd.append(d)
                    # a reversed coordinate is one thing, a shortened one is refused later
                    x.append(X.FULL if w < 0.65 else X.sl(None, None, -1) if w < 0.85 else X.sl(0, v["shape"][i]) if w < 0.97 else X.sl(0, 1))
            while x and x[-1] == X.FULL: x.pop()
            dims = nd
        if not dims and v["dims"] and v["dt"] == "i" and [0, 0] in v["c"]: x, dims = [], list(v["dims"])
        return (var(v["n"], x), dims, v["pos"], v["dt"])

    def const(self):
        r = self.rng
        if r.random() < 0.6: return (num(r.choice([1, 2, 3, 4, 5, 10, -2])), [], "", "i")
        a, b = r.choice([(1, 2), (3, 2), (5, 2), (1, 4), (2, 1), (-1, 2)])
        return (num(a, "f", b), [], "", "f")

    def expr(self, fam, depth):
        r = self.rng
        w = r.random()
        if depth <= 0 or w < 0.22:
            e = self.leaf(fam)
            if e is not None: return e
            if fam == "one": return self.const()
            return self.convert_leaf(fam)
        if self.p("p_fn"): return self.function(fam, depth)
        if w < 0.5:
            a, b = self.expr(fam, depth - 1), self.expr(fam, depth - 1)
            return self.bin(r.choice("+-"), a, b)
        if w < 0.6:
            a = self.expr(fam, depth - 1)
            return (op("-", a[0]), a[1], a[2], a[3])
        if w < 0.8: return self.bin("*", *self.sh(self.expr(fam, depth - 1), self.scalarish(depth - 1)))
        if w < 0.92: return self.bin("/", self.expr(fam, depth - 1), self.scalarish(depth - 1))
        if fam == "one": return self.bin("/", *[self.expr(f, depth - 1) for f in [r.choice(FAMS)] * 2])
        e = self.expr(fam, depth - 1)
        return (op("**", e[0], num(1)), e[1], e[2], e[3])
    def sh(self, a, b): return (a, b) if self.rng.random() < 0.5 else (b, a)

    def convert_leaf(self, fam):
        """a quantity of the family from some other one, by declaring its units"""
        r = self.rng
        v = r.choice([v for v in self.inp if v["fam"]])
        e = self.leaf(v["fam"])
        u = r.choice(FAM[fam])
        return (fn("chunits", e[0], units={"t": "str", "v": u, "u": {"n": u, "ref": [], "cal": ""}}), e[1], e[2], e[3])

    def scalarish(self, depth):
        r = self.rng
        if r.random() < 0.55: return self.const()
        if r.random() < 0.2:
            e = self.expr(r.choice(FAMS), depth - 1)
            if not has_var(e[0]): return e
            return (fn("rmunits", e[0]), e[1], e[2], e[3])
        return self.expr("one", depth)

    def bin(self, o, a, b):
        dims = a[1] + [d for d in b[1] if d not in a[1]]
        return (op(o, a[0], b[0]), dims, a[2] or b[2], "f" if o == "/" or "f" in (a[3], b[3]) else "i")

    def function(self, fam, depth):
        r = self.rng
        e = self.expr(fam, depth - 1)
        if not has_var(e[0]): return e
        w = r.random()
        if self.p("p_reduce") and e[1]:
            S = r.sample(e[1], r.randint(1, len(e[1])))
            how = r.choice(["mean", "sum", "min", "max"])
            names = list(S)
            if r.random() < 0.05: names.append("nodim")
            return (fn(how, e[0], *[st(d) for d in names]), [d for d in e[1] if d not in S], e[2], "f" if how == "mean" else e[3])
        if w < 0.3 + self.o["p_up"]:
            k = r.choice(["up", "down"])
            return (fn(k, e[0]), e[1], k, e[3])
        if w < 0.65:
            kw = {}
            lo = r.randint(-4, 2)
            if r.random() < 0.7: kw["below"] = num(lo)
            if r.random() < 0.7 or not kw: kw["above"] = num(lo + r.randint(0, 5))
            return (fn("limit", e[0], **kw), e[1], e[2], e[3])
        if w < 0.8:
            u = r.choice(FAM[fam])
            return (fn("chunits", e[0], units={"t": "str", "v": u, "u": {"n": u, "ref": [], "cal": ""}}), e[1], e[2], e[3])
        if fam in ("len", "one") and w < 0.9:
            b = self.expr(fam, depth - 2)
            if not has_var(b[0]): return e
            q = op("*", b[0], b[0]) if r.random() < 0.5 else op("**", b[0], num(2))
            return (fn("sqrt", q), b[1], b[2], "f")
        return e

    # ---- the conversion -------------------------------------------------------------------------------
    def run(self):
        r = self.rng
        self.inputs()
        omap = {}
        pool = ["x", "y", "z", "t", "plev", "lat", "lon", "time"]
        r.shuffle(pool)
        for d in self.dims:
            if self.p("p_rename"):
                o = next((q for q in pool if q not in omap.values() and q not in self.dims), None)
                if r.random() < 0.3: o = next((q for q in pool if q not in omap.values()), o)
                omap[d] = o or d
            else: omap[d] = d
        if len(set(omap.values())) < len(omap): omap = {d: d for d in self.dims}
        self.omap = omap
        vs, files = [], []
        coords = not self.p("p_nocoord")
        for d in self.dims:
            if not coords: continue
            iv = next(v for v in self.inp if v["n"] == d)
            v = self.outvar(omap[d], var(d, [X.sl(None, None, -1)] if r.random() < 0.1 else []), [d], "f", iv["un"])
            v["axis"] = True; v["axisname"] = {"lat": "Y", "lon": "X", "lev": "Z", "time": "T"}[d]
            if self.p("p_dir"): v["dir"] = r.choice(["increasing", "decreasing"])
            if r.random() < 0.008: v["dir"] = "sideways"
            v["pos"] = ""; v["vmin"] = v["vmax"] = []
            vs.append(v)
        n = r.randint(*self.o["nvars"])
        fams = [f for f in FAMS if any(v["fam"] == f for v in self.inp)] or ["one"]
        for k in range(n):
            fam = r.choice(fams)
            e = self.expr(fam, r.randint(0, self.o["depth"]))
            if self.p("p_bad"): e = self.spoil(e)
            if self.p("p_up") and r.random() < 0.3:
                w = r.random()
                e = (op("*", e[0], self.leaf(fam)[0]) if self.leaf(fam) and w < 0.4 else op("**", e[0], num(r.choice([2, 2, 3, -1, 0]))) if w < 0.7 else e[0], None, "", "f")
            u = None
            if e[1] is None: e = (e[0], self.dims_of(e[0]), e[2], e[3]); u = NOU if r.random() < 0.5 else unit("")
            vs.append(self.outvar("o%d" % k, e[0], e[1], e[3], None, fam, u))
        if "time" in self.dims and self.p("p_tunit"): vs.append(self.time_var("o%d" % n))
        # variables given by data
        if self.p("p_data"):
            d = r.choice(list(self.omap.values()) + ["bnd"])
            nn = 2 if d == "bnd" else self.size[[i for i in self.dims if omap[i] == d][0]]
            if r.random() < 0.04: nn += 1
            dt = r.choice(["f8", "i4"])
            vs.append(self.blank("g0", kind="data", dims=[d], shape=[nn], c=[[x, 1] for x in sorted(r.sample(range(1, 30), nn))], ot=dt,
                                 u=unit(r.choice(["1", "m", "K"])) if r.random() < 0.7 else NOU))
            if r.random() < 0.4 and not any(v["n"] == "g0" for v in self.inp):
                tgt = r.choice([v for v in vs if v["kind"] == "def" and not v["axis"]] or [vs[0]])
                if not tgt["axis"] and d in tgt["dims"] and vs[-1]["u"]["n"] == "1":
                    tgt["ast"] = op("*", tgt["ast"], var("g0"))
                    # its dimension is an output dimension: meaningful only if the names coincide
        mains = [v for v in vs if v["n"].startswith("o")]
        fs = []
        for v in vs:
            v["rank"] = 0
        own = [mains[0]] + [v for v in mains[1:] if r.random() < 0.7]
        if self.p("p_files") and coords: own.append(vs[0])
        for j, v in enumerate(own):
            meta = []
            if r.random() < 0.4: meta = r.sample([w["n"] for w in vs if w is not v], r.randint(1, min(2, len(vs) - 1))) if len(vs) > 1 else []
            fs.append({"n": "f%d.nc" % j, "owner": v["n"], "meta": meta})
        if self.p("p_meta") and len(vs) > 1:
            a = r.choice(vs)
            if r.random() < 0.5: a["bounds"] = r.choice([w["n"] for w in vs if w is not a])
            else: a["coords"] = r.sample([w["n"] for w in vs if w is not a], r.randint(1, min(2, len(vs) - 1)))
        if self.p("p_skip"):
            k = r.choice(["none", "empty", "missing"])
            v = r.choice(mains)
            if k == "missing": v["ast"] = op("+", *([v["ast"], var("absent")] if v["ast"]["t"] == "var" and not v["ast"]["x"] else [var("absent"), v["ast"]]))
            else: v["kind"] = k
        if r.random() < 0.08:
            v = r.choice(vs)
            if v["n"][0] in "og" and not any(f["owner"] == v["n"] for f in fs): self.rename_var(vs, fs, v, "_" + v["n"])
        if self.p("p_shuffle"): r.shuffle(vs); r.shuffle(fs)
        for i, nme in enumerate(sorted(v["n"] for v in vs)):
            next(v for v in vs if v["n"] == nme)["rank"] = i
        for v in vs:
            v["hidden"] = v["n"].startswith("_")
            if v["kind"] == "empty": v["kind"] = "none"; v["blankdef"] = True
        chunks = self.chunks(vs)
        # numpy computes roots of short integers in single precision
        loose = any(v.get("nd") == "f4" for v in self.inp) or any(v.get("nd") in ("i1", "i2") for v in self.inp) and "'sqrt'" in repr([v.get("ast") for v in vs])
        return {"inp": [dict(v, fam=v["fam"] or "", f=[0] if r.random() < 0.7 or v["n"] not in self.dims else [0, 1]) for v in self.inp], "unlim": self.unlim,
                "vars": vs, "files": fs, "chunks": chunks, "loose": loose}

    def chunks(self, vs):
        r = self.rng
        if not self.p("p_chunk"): return []
        ds = [d for d in self.dims if r.random() < 0.6] or [r.choice(self.dims)]
        r.shuffle(ds)
        out = [[self.omap[d], r.choice([1, 1, 2, 2, 3, self.size[d], self.size[d] + 1])] for d in ds]
        if self.p("p_badchunk"): out.append(r.choice([["nodim", 1], [self.omap[ds[0]], 0], [self.omap[ds[0]], -1]]))
        seen = {}
        for d, n in out: seen[d] = n
        return [[d, n] for d, n in seen.items()]

    def rename_var(self, vs, fs, v, n):
        old = v["n"]; v["n"] = n
        for w in vs:
            if w["bounds"] == old: w["bounds"] = n
            w["coords"] = [n if c == old else c for c in w["coords"]]
            if w.get("ast"): self.rename_ast(w["ast"], old, n)
        for f in fs: f["meta"] = [n if m == old else m for m in f["meta"]]
    def rename_ast(self, e, old, n):
        if e["t"] == "var" and e["n"] == old: e["n"] = n
        for a in e.get("a", []): self.rename_ast(a, old, n)

    def dims_of(self, e):
        t = e["t"]
        if t == "var":
            v = next((v for v in self.inp if v["n"] == e["n"]), None)
            if v is None: return []
            x = e["x"] + [X.FULL] * (len(v["dims"]) - len(e["x"]))
            return [d for d, k in zip(v["dims"], x) if k["k"] != "i"]
        if t == "op":
            out = []
            for a in e["a"]: out += [d for d in self.dims_of(a) if d not in out]
            return out
        if t == "fn":
            ds = self.dims_of(e["a"][0])
            if e["n"] in ("mean", "sum", "min", "max"): ds = [d for d in ds if d not in [a["v"] for a in e["a"][1:]]]
            return ds
        return []

    def spoil(self, e):
        """meaningless in most cases: other units, shortened dimensions, an index out of range"""
        r = self.rng
        w = r.random()
        if w < 0.4:
            o = r.choice([v for v in self.inp if v["fam"]])
            return (op("+", e[0], var(o["n"])), e[1] + [d for d in o["dims"] if d not in e[1]], e[2], "f")
        c = [v for v in self.inp if v["dims"] and v["fam"]]
        if not c: return e
        v = r.choice(c)
        if w < 0.7: return (op("*", e[0], var(v["n"], [X.sl(0, 1)])), e[1] + [d for d in v["dims"] if d not in e[1]], e[2], "f")
        if w < 0.85: return (op("*", e[0], var(v["n"], [X.it(v["shape"][0] + 2)])), e[1] + [d for d in v["dims"][1:] if d not in e[1]], e[2], "f")
        return (fn("sqrt", e[0]), e[1], e[2], "f")

    def blank(self, n, **kw):
        v = {"n": n, "kind": "def", "ast": num(0), "dims": [], "ot": "f8", "u": NOU, "pos": "", "vmin": [], "vmax": [], "mmin": [], "mmax": [], "axis": False,
             "dir": "", "rank": 0, "shape": [], "c": [], "bounds": "", "coords": [], "hidden": False, "fill": []}
        v.update(kw)
        return v

    def time_var(self, n):
        """a variable of times, whose units are changed by parts, and declared or not"""
        r = self.rng
        tu = next(v for v in self.inp if v["n"] == "time")["un"]
        cs = [v for v in self.inp if v["dims"]]
        if r.random() < 0.5: e = (var("time"), ["time"])
        else:
            v = r.choice(cs)
            e = (var(v["n"]), list(v["dims"]))
        kw, cal, dt = {}, tu["cal"], "f"
        w = r.random()
        ref = [r.choice([1999, 2000, 2001, 2004]), r.randint(1, 12), r.randint(1, 28), r.choice([0, 43200])]
        name = r.choice(["days", "hours"])
        txt = "%04d-%02d-%02d %02d:00:00" % (ref[0], ref[1], ref[2], ref[3] // 3600)
        if w < 0.3: kw["units"] = var("time") if r.random() < 0.7 else op("*", var("time"), num(1))
        elif w < 0.6: kw["units"] = {"t": "str", "v": name, "u": {"n": name, "ref": [], "cal": ""}}
        elif w < 0.8:
            kw["units"] = {"t": "str", "v": "%s since %s" % (name, txt), "u": {"n": name, "ref": ref, "cal": ""}}
            cal = "standard"
        if r.random() < 0.4 and w >= 0.3: kw["refdate"] = {"t": "str", "v": txt, "r": ref}
        if r.random() < 0.4:
            cal = r.choice([c for c in CALS if c])
            kw["calendar"] = {"t": "str", "v": cal, "r": []}
        e = (fn("chunits", e[0], **kw), e[1]) if kw or r.random() < 0.3 else e
        if r.random() < 0.3: e = (op(r.choice("+-"), e[0], var("time")), e[1] + [d for d in ["time"] if d not in e[1]])
        v = self.outvar(n, e[0], e[1], dt, {"n": "days", "ref": [2000, 1, 1, 0], "cal": cal if r.random() < 0.8 else tu["cal"]})
        v["vmin"] = v["vmax"] = v["mmin"] = v["mmax"] = []
        v["ot"] = "f8"
        return v

    def outvar(self, n, ast, dims, dt, un=None, fam=None, u=None):
        r = self.rng
        v = self.blank(n, ast=ast)
        od = [self.omap.get(d, d) for d in dims]
        if r.random() < 0.6: r.shuffle(od)
        if r.random() < 0.01: od = od[:-1]
        if r.random() < 0.01: od = od + ["extra"]
        v["dims"] = od
        v["ot"] = r.choice(["f8", "f8", "f8", "f4"]) if dt == "f" or r.random() < 0.5 else r.choice(["i4", "i4", "f8"])
        if u is not None: v["u"] = dict(u)
        elif un is not None and un["ref"]:
            w = r.random()
            cal = un["cal"] if r.random() < 0.9 else r.choice(CALS)
            # (seconds since a date more than 68 years ago have no 32 bit representation)
            y0 = r.choice([1850, 2000, 1996])
            us = ["days", "hours"] + (["seconds"] if abs(y0 - un["ref"][0]) < 20 else [])
            if w < 0.35: v["u"] = {"has": True, "n": r.choice(us), "ref": [y0, r.randint(1, 12), r.randint(1, 28), r.choice([0, 43200])], "cal": cal, "full": r.random() < 0.3}
            elif w < 0.5: v["u"] = {"has": True, "n": r.choice(["days", "hours"]), "ref": [], "cal": ""}
            elif w < 0.65: v["u"] = {"has": True, "n": "", "ref": [2001, 2, 3, 0], "cal": "", "full": False}
            elif w < 0.9: v["u"] = unit("")
            else: v["u"] = dict(NOU)
        elif un is not None:
            v["u"] = r.choice([unit(un["n"]), unit(""), dict(NOU)] + ([unit(r.choice(FAM["len"]))] if un["n"] in FAM["len"] else []))
        elif self.p("p_unit"): v["u"] = unit(r.choice(FAM[fam]))
        else: v["u"] = r.choice([unit(""), dict(NOU)])
        if v["ot"] == "i4" and r.random() < 0.9: v["u"] = r.choice([unit(""), dict(NOU)])
        if r.random() < 0.02: v["ot"] = "i4"
        if self.p("p_pos"): v["pos"] = r.choice(["up", "down"])
        if self.p("p_fill"): v["fill"] = [[r.choice([0, 0, -999, -99, 1, 2, 9999]), 1]]
        if self.p("p_range") and not self.f4:
            lo = r.randint(-4, 2)
            if r.random() < 0.7: v["vmin"] = [[lo, 1]]
            if r.random() < 0.7: v["vmax"] = [[lo + r.randint(0, 6), 1]]
        if self.p("p_mean"):
            if r.random() < 0.7: v["mmin"] = [[r.randint(1, 4), 1]]
            if r.random() < 0.7: v["mmax"] = [[r.randint(1, 6), 2]]
        v["blank"] = r.choice(["?", "unknown", ""])
        v["u"]["blank"] = v["blank"]
        return v

def has_var(e):
    return e["t"] == "var" or any(has_var(a) for a in e.get("a", []))

def g(a, b):
    while b: a, b = b, a % b
    return abs(a) or 1
