"""Random operations on real physical arrays; every step is recorded with all live arrays before and after it."""
import random
import numpy as np
from . import proj, idx as X
from .flowgen import FAM, FAMS

def faithful(a):
    """can the array be followed exactly: no rounding noise where a value is meant to be zero, no huge or tiny values"""
    d = np.ma.compressed(np.ma.MaskedArray(np.ma.getdata(a), mask=np.ma.getmaskarray(a))).astype(float)
    return bool(np.all(np.isfinite(d))) and bool(np.all((d == 0) | (np.abs(d) > 1e-4)))

def unit_spec(n): return {"n": n, "ref": [], "cal": ""}

def arr_json(a):
    from pyconform.physarray import PhysArray
    a = a if isinstance(a, PhysArray) else PhysArray(a)
    c = [[1, 0] if x == [7, -1] else x for x in proj.cells(np.ma.MaskedArray(np.ma.getdata(a), mask=np.ma.getmaskarray(a)))]
    return {"dims": [str(d) for d in a.dimensions], "shape": list(a.shape), "c": c, "u": proj.unit(a.units), "pos": a.positive or "",
            "dt": "i" if a.dtype.kind in "iu" else "f"}

OPT = dict(ops=None, p_missing=0.3, p_pos=0.4, p_int=0.3, fams=None, p_clash=0.08, p_const=0.2, dims=("x", "y", "z"), p_badunit=0.1, fn=None,
           p_view=0.3, p_time=0.0, cals=("standard", "noleap", "360_day", "all_leap", "proleptic_gregorian", ""))
BIN = ["add", "sub", "mul", "div"]
ALL = BIN * 2 + ["floordiv", "pow", "pow", "neg", "invert", "convert", "convert", "transpose", "get", "mean", "sum", "iadd", "isub", "imul", "idiv", "ipow",
                 "up", "down", "flip", "set", "fn", "fn", "fn"]
FNS = ["mean", "sum", "min", "max", "sqrt", "up", "down", "rmunits", "chunits", "limit", "chdims"]

def unit_time(r, cals):
    """units of time since a date"""
    return {"n": r.choice(["days", "hours"]), "ref": [r.choice([1996, 2000, 2001]), r.randint(1, 12), r.randint(1, 28), r.choice([0, 0, 21600, 43200])], "cal": r.choice(cals)}
def ref_text(u):
    y, m, d, s = u["ref"]
    return "%04d-%02d-%02d %02d:%02d:%02d" % (y, m, d, s // 3600, s // 60 % 60, s % 60)
def time_unit(u):
    from cf_units import Unit
    return Unit("%s since %s" % (u["n"], ref_text(u)), calendar=u["cal"] or None)

class Runner(object):
    def __init__(self, seed, **kw):
        self.r = random.Random(seed)
        self.o = dict(OPT); self.o.update(kw)
        r = self.r
        self.dims = list(self.o["dims"])
        self.size = dict(zip(self.dims, [r.choice([1, 2, 2, 3]) for _ in self.dims]))
        self.fams = self.o["fams"] or r.sample(FAMS, 2) + ["one"]
        self.regs = {}
        self.next = 0
        self.out = []
        for _ in range(4): self.fresh()

    def p(self, k): return self.r.random() < self.o[k]

    def fresh(self):
        from pyconform.physarray import PhysArray
        r = self.r
        dims = [d for d in self.dims if r.random() < 0.65]
        r.shuffle(dims)
        shape = [self.size[d] + (1 if self.p("p_clash") else 0) for d in dims]
        n = int(np.prod(shape)) if shape else 1
        isint = self.p("p_int")
        den = 1 if isint else r.choice([1, 1, 2, 4])
        data = np.array([r.randint(-6, 6) / den for _ in range(n)], dtype="i8" if isint else "f8").reshape(shape)
        if isint and r.random() < 0.5: data = data.astype("i4")
        if self.p("p_missing") and (not isint or dims):
            m = np.array([r.random() < 0.3 for _ in range(n)]).reshape(shape)
            # what lies under the mask is of no importance
            if not isint and r.random() < 0.5: data = np.where(m, r.choice([1e20, 9.96e36, np.nan]), data)
            data = np.ma.array(data, mask=m)
        u = r.choice(FAM[r.choice(self.fams)])
        if self.p("p_time"):
            u = time_unit(unit_time(r, self.o["cals"]))
            data = np.abs(data)
        a = PhysArray(data, name="r%d" % self.next, units=u, dimensions=tuple(dims), positive=r.choice(["up", "down"]) if self.p("p_pos") else None)
        self.put(a)

    def put(self, a):
        while len(self.regs) >= 5: del self.regs[self.r.choice(sorted(self.regs))]
        n = "r%d" % self.next; self.next += 1
        self.regs[n] = a
        return n

    def snapshot(self, names=None):
        return [{"n": n, "a": arr_json(self.regs[n])} for n in sorted(names or self.regs)]

    def operand(self, like=None):
        r = self.r
        if self.p("p_const"):
            if r.random() < 0.6: return {"t": "num", "v": [r.choice([1, 2, 3, -2, 5]), 1], "k": "i"}
            return {"t": "num", "v": [r.choice([1, 3, -1]), 2], "k": "f"}
        ns = sorted(self.regs)
        if like is not None and not self.p("p_badunit"):
            u = self.regs[like].units
            c = [n for n in ns if self.regs[n].units.is_convertible(u)]
            if c: return {"t": "reg", "n": r.choice(c)}
        return {"t": "reg", "n": r.choice(ns)}

    def val(self, x):
        if x["t"] == "reg": return self.regs[x["n"]]
        return x["v"][0] if x["k"] == "i" else x["v"][0] / x["v"][1]

    def step(self):
        from pyconform.physarray import PhysArray
        from pyconform import functions as F
        r = self.r
        ops = self.o["ops"] or ALL
        o = r.choice(ops)
        a = r.choice(sorted(self.regs))
        if o == "set" and not self.regs[a].ndim:
            c = [n for n in sorted(self.regs) if self.regs[n].ndim]
            if c: a = r.choice(c)
            else: o = "flip"
        if o == "idiv" and not self.regs[a].ndim: o = "imul" # numpy: a zero divisor spoils the mask of a single item
        A = self.regs[a]
        op = {"o": o, "a": {"t": "reg", "n": a}, "b": {"t": "num", "v": [1, 1], "k": "i"}}
        if o in ("iadd", "isub", "imul", "idiv", "ipow", "up", "down", "flip", "set"):
            # the target of an operation in place is nobody's view
            self.regs[a] = A = PhysArray(A.copy())
        if o in BIN + ["floordiv", "iadd", "isub", "imul", "idiv"]:
            op["b"] = self.operand(a if o in ("add", "sub", "iadd", "isub") else None)
            if o[0] == "i" and o != "invert" and r.random() < 0.7 and op["b"]["t"] == "reg":
                c = [n for n in sorted(self.regs) if set(self.regs[n].dimensions) <= set(A.dimensions) and
                     (o in ("imul", "idiv") or self.regs[n].units.is_convertible(A.units))]
                if c: op["b"] = {"t": "reg", "n": r.choice(c)}
            if r.random() < 0.15 and o in BIN and op["b"]["t"] == "num": op["a"], op["b"] = op["b"], op["a"]
            if op["b"] == op["a"] and o[0] == "i": op["b"] = {"t": "num", "v": [2, 1], "k": "i"}
        if o in ("pow", "ipow"):
            op["b"] = {"t": "num", "v": [r.choice([2, 2, 3, 1, 0, -1, -2]), 1], "k": "i"}
            if r.random() < 0.1: op["b"] = self.operand()
        if o == "convert":
            us = [u for f in FAMS for u in FAM[f]]
            from cf_units import Unit
            ok = [u for u in us if A.units.is_convertible(Unit(u))]
            op["u"] = unit_spec(r.choice(ok) if ok and r.random() < 0.85 else r.choice(us))
            if A.units.is_time_reference() or self.p("p_time") and r.random() < 0.2:
                op["u"] = unit_time(r, self.o["cals"])
                if A.units.is_time_reference() and r.random() < 0.6: op["u"]["cal"] = A.units.calendar
                # the same units in another calendar
                if A.units.is_time_reference() and r.random() < 0.3: op["u"].update(n=str(A.units.origin).split()[0], ref=proj.unit(A.units)["ref"])
        if o == "transpose":
            ds = list(A.dimensions); r.shuffle(ds)
            if r.random() < 0.08: ds = ds[:-1]
            if r.random() < 0.05: ds = ds + ["w"]
            op["dims"] = [str(d) for d in ds]
        if o in ("mean", "sum"):
            op["dims"] = r.sample([str(d) for d in A.dimensions], r.randint(0 if r.random() < 0.2 else min(1, A.ndim), A.ndim))
        if o == "get": op["q"] = X.rnd_req(r, list(A.dimensions), list(A.shape))
        if o == "set":
            dd, sh = list(A.dimensions), list(A.shape)
            op["q"] = X.rnd_req(r, dd, sh, pint=0.2, bad=0.02)
            if op["q"]["t"] == "none": op["q"] = {"t": "dict", "x": []}
            if r.random() < 0.6: op["b"] = {"t": "num", "v": [r.randint(-3, 3), 1], "k": "i"}
            else:
                # the right size, in a random order of dimensions
                try: w = np.zeros(sh)[X.tup(op["q"]["x"])].shape if op["q"]["t"] == "tuple" else None
                except IndexError: w = None
                c = [n for n in sorted(self.regs) if n != a and set(self.regs[n].dimensions) == set(dd) and self.regs[n].units.is_convertible(A.units)]
                if c and A.dtype.kind == "f":
                    op["b"] = {"t": "reg", "n": r.choice(c)}
                    op["q"] = {"t": "dict", "x": [{"d": d, "e": r.choice([X.FULL, X.sl(None, None, -1)])} for d in dd if r.random() < 0.5]}
                else: op["b"] = {"t": "num", "v": [2, 1], "k": "i"}
            # numbers are taken as they are by assignment: directions of both sides must be the same
            if op["b"]["t"] == "reg" and self.regs[op["b"]["n"]].positive != A.positive: op["b"] = {"t": "num", "v": [3, 1], "k": "i"}
        if o == "fn":
            f = r.choice(self.o["fn"] or FNS)
            op.update(f=f, dims=[], kw=[], below=[], above=[], q={"t": "dict", "x": []})
            if f in ("mean", "sum", "min", "max"):
                op["dims"] = r.sample([str(d) for d in A.dimensions], r.randint(min(1, A.ndim), A.ndim)) + (["nodim"] if r.random() < 0.1 else [])
            elif f == "chdims": op["dims"] = r.sample(["p", "q", "s", "x", "y"], min(5, r.randint(0, A.ndim + (r.random() < 0.1))))
            elif f == "chunits":
                u = r.choice(FAM[r.choice(self.fams)])
                op["kw"] = [{"n": "units", "v": {"t": "str", "v": u, "u": unit_spec(u)}}]
                if self.p("p_time") or A.units.is_time_reference():
                    t = unit_time(r, self.o["cals"])
                    w = r.random()
                    if w < 0.3: op["kw"] = [{"n": "units", "v": {"t": "reg", "n": r.choice(sorted(self.regs))}}]
                    elif w < 0.5:
                        t["cal"] = ""
                        op["kw"] = [{"n": "units", "v": {"t": "str", "v": "%s since %s" % (t["n"], ref_text(t)), "u": t}}]
                    elif w < 0.8: op["kw"] = [{"n": "units", "v": {"t": "str", "v": t["n"], "u": unit_spec(t["n"])}}]
                    else: op["kw"] = []
                    if r.random() < 0.35: op["kw"].append({"n": "refdate", "v": {"t": "str", "v": ref_text(t), "r": t["ref"]}})
                    if r.random() < 0.35 and t["cal"]: op["kw"].append({"n": "calendar", "v": {"t": "str", "v": t["cal"], "r": []}})
            elif f == "limit":
                lo = r.randint(-4, 2)
                if r.random() < 0.7: op["below"] = [[lo, 1]]
                if r.random() < 0.7: op["above"] = [[lo + r.randint(0, 5), 1 if r.random() < 0.7 else 2]]
                for k in ("below", "above"):
                    if op[k] and op[k][0][1] == 2 and op[k][0][0] % 2 == 0: op[k][0] = [op[k][0][0] // 2, 1]
            if f in ("mean", "sum", "min", "max"): rest = [d for d in A.dimensions if d not in op["dims"]]
            elif f == "chdims": rest = op["dims"][:A.ndim] + [str(d) for d in A.dimensions[len(op["dims"]):]]
            else: rest = [str(d) for d in A.dimensions]
            sz = [A.shape[list(A.dimensions).index(d)] for d in rest] if f != "chdims" else list(A.shape)
            if len(set(rest)) == len(rest) and r.random() < 0.6:
                op["q"] = {"t": "dict", "x": [{"d": d, "e": X.rnd_elem(r, n, 0.2, 0.0)} for d, n in zip(rest, sz) if r.random() < 0.6]}
                if r.random() < 0.15 and f not in ("mean", "sum", "min", "max"): op["q"] = {"t": "none", "x": []}
        used = [x["n"] for x in (op["a"], op["b"]) if x["t"] == "reg"]
        before = self.snapshot()
        err, res = "", None
        x, y = self.val(op["a"]), self.val(op["b"])
        try:
            if o == "add": res = x + y
            elif o == "sub": res = x - y
            elif o == "mul": res = x * y
            elif o == "div": res = x / y
            elif o == "floordiv": res = x // y
            elif o == "pow": res = x ** y
            elif o == "neg": res = -x
            elif o == "invert": res = x.invert()
            elif o == "convert": res = x.convert(time_unit(op["u"]) if op["u"]["ref"] else op["u"]["n"])
            elif o == "transpose": res = x.transpose(*op["dims"]) if r.random() < 0.5 else x.transpose(tuple(op["dims"]))
            elif o == "get": res = x[X.req(op["q"])]
            elif o == "mean": res = x.mean(dimensions=op["dims"])
            elif o == "sum": res = x.sum(dimensions=op["dims"])
            elif o == "iadd": x += y; res = x
            elif o == "isub": x -= y; res = x
            elif o == "imul": x *= y; res = x
            elif o == "idiv": x /= y; res = x
            elif o == "ipow": x **= y; res = x
            elif o == "up": res = x.up()
            elif o == "down": res = x.down()
            elif o == "flip": res = x.flip()
            elif o == "set": x[X.req(op["q"])] = y; res = x
            elif o == "fn":
                cls = F.find_function(op["f"])
                if op["f"] == "limit":
                    kw = {k: (op[k][0][0] if op[k][0][1] == 1 else op[k][0][0] / op[k][0][1]) for k in ("below", "above") if op[k]}
                    fo = cls(x, **kw)
                elif op["f"] == "chunits": fo = cls(x, **{k["n"]: self.regs[k["v"]["n"]] if k["v"]["t"] == "reg" else k["v"]["v"] for k in op["kw"]})
                else: fo = cls(x, *op["dims"])
                res = fo[X.req(op["q"])]
        except Exception as e:
            err = type(e).__name__
        after = self.snapshot()
        rec = {"kind": "op", "op": op, "regs": before, "after": after, "err": err, "res": arr_json(res) if res is not None else before[0]["a"]}
        # arrays of numbers too large to be followed exactly are replaced
        for n in sorted(self.regs):
            c = arr_json(self.regs[n])
            if not faithful(self.regs[n]) or any(x[1] < 0 or x == [1, 0] or abs(x[0]) > 20000 or x[1] > 2000 for x in c["c"]) or c["u"]["t"] == "x" or len(set(c["dims"])) < len(c["dims"]) \
               or any(n == 0 for n in c["shape"]) or abs(c["u"]["k"][0]) > 10 ** 6 or c["u"]["k"][1] > 10 ** 6 or max(map(abs, c["u"]["e"])) > 4:
                del self.regs[n]
        if err and o in ("iadd", "isub", "imul", "idiv", "ipow", "set") and op["a"]["n"] in self.regs: del self.regs[op["a"]["n"]]
        if not err and o not in ("iadd", "isub", "imul", "idiv", "ipow", "up", "down", "flip", "set"):
            c = rec["res"]
            good = all(x[1] > 0 and abs(x[0]) <= 20000 and x[1] <= 2000 or x == [0, 0] for x in c["c"]) and c["u"]["t"] != "x" and all(c["shape"]) \
                and len(set(c["dims"])) == len(c["dims"]) and max(map(abs, c["u"]["e"])) <= 4 and abs(c["u"]["k"][0]) <= 10 ** 6 and c["u"]["k"][1] <= 10 ** 6 \
                and (c["dt"] == "f" or c["dims"] or c["c"] != [[0, 0]]) and c["u"]["t"] == "u"
            if good and faithful(res) and isinstance(res, PhysArray) and (r.random() < 0.7): self.put(res)
        while len(self.regs) < 4: self.fresh()
        self.out.append(rec)

    def run(self, n):
        for _ in range(n): self.step()
        return self.out
