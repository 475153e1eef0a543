"""Node graphs built from the public classes, with shared leaves, and requests to any of their nodes."""
import hashlib, random
import numpy as np
from . import flowrun, physrun, proj, idx as X

def cells_none(a):
    return {"dims": [str(d) for d in a.dimensions], "shape": list(a.shape), "c": [], "u": proj.unit(a.units), "pos": a.positive or "", "dt": "i" if a.dtype.kind in "iu" else "f"}

def digest(a):
    m = np.ma.getmaskarray(a)
    d = np.ma.filled(np.ma.MaskedArray(np.ma.getdata(a), mask=m), 0)
    return hashlib.md5(repr((a.dimensions, a.shape, str(a.dtype), str(a.units), a.units.calendar, a.positive, m.tobytes(), np.ascontiguousarray(d).tobytes())).encode()).hexdigest()

class Graph(object):
    def __init__(self, run, d, rng, inputs=None, p_data=0.4, opaque=0.3):
        from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc
        self.run, self.rng = run, rng
        names = inputs or flowrun.write_inputs(run, d)
        self.ids = InputDatasetDesc("inp", names)
        self.leaves = {}
        self.p_data = p_data
        self.nodes = []      # [{"k": "expr", "ast":, "node":}]
        self.data = {}       # arrays given to data nodes
        self.inp = {v["n"]: v for v in run["inp"]}

    def source(self, n):
        from pyconform.flownodes import ReadNode, DataNode
        if n not in self.leaves:
            if self.rng.random() < self.p_data:
                a = ReadNode(self.ids.variables[n])[:]
                from pyconform.physarray import PhysArray
                self.data[n] = a
                self.leaves[n] = DataNode(a)
            else: self.leaves[n] = ReadNode(self.ids.variables[n])
        return self.leaves[n]

    def build(self, e, top=True):
        """the node of an expression (numbers and names are passed as they are, as a data flow does)"""
        from pyconform.flownodes import ReadNode, DataNode, EvalNode
        from pyconform.functions import find_operator, find_function
        t = e["t"]
        if t == "num": return e["v"][0] if e["k"] == "i" else e["v"][0] / e["v"][1]
        if t == "str": return e["v"]
        if t == "var":
            src = self.source(e["n"])
            if not e["x"]: node = src
            else:
                ix = X.tup(e["x"])
                key = e["n"] + repr(ix)
                if key not in self.leaves:
                    self.leaves[key] = DataNode(src[ix]) if e["n"] in self.data else ReadNode(self.ids.variables[e["n"]], index=ix)
                node = self.leaves[key]
        else:
            args = [self.build(a) for a in e["a"]]
            kw = {k["n"]: self.build(k["v"]) for k in e.get("kw", [])}
            node = EvalNode(e["n"], find_operator(e["n"], numargs=len(args)) if t == "op" else find_function(e["n"]), *args, **kw)
        self.nodes.append({"k": "expr", "ast": e, "node": node, "map": [], "v": ""})
        return node

    def top(self, v, o2i):
        """map and validation of an output variable"""
        from pyconform.flownodes import MapNode, ValidateNode
        from pyconform.datasets import OutputDatasetDesc
        node = self.build(v["ast"])
        if isinstance(node, (int, float)): return
        i2o = {b: a for a, b in o2i.items()}
        # an unmapped dimension with the name another one is given would make the names ambiguous
        if any(d not in i2o and d in o2i for d in node[None].dimensions): return
        m = MapNode("m", node, i2o)
        self.nodes.append({"k": "map", "ast": v["ast"], "node": m, "map": [{"i": a, "o": b} for a, b in i2o.items()], "v": v["n"]})
        spec = flowrun.spec_dict({"vars": [dict(v, bounds="", coords=[])], "files": [{"n": "f.nc", "owner": v["n"], "meta": []}]})
        ods = OutputDatasetDesc("out", spec)
        w = ValidateNode(ods.variables[v["n"]], m)
        # validated without renaming, over the names of the input
        if all(d in o2i for d in v["dims"]) and self.rng.random() < 0.5:
            vi = dict(v, dims=[o2i[d] for d in v["dims"]], bounds="", coords=[])
            ods = OutputDatasetDesc("out", flowrun.spec_dict({"vars": [vi], "files": [{"n": "f.nc", "owner": v["n"], "meta": []}]}))
            self.nodes.append({"k": "valid", "ast": v["ast"], "node": ValidateNode(ods.variables[v["n"]], node), "map": [], "v": v["n"],
                               "run": dict(self.run, vars=[vi if x is v else x for x in self.run["vars"]])})
        self.nodes.append({"k": "valid", "ast": v["ast"], "node": w, "map": [{"i": a, "o": b} for a, b in i2o.items()], "v": v["n"]})

    def request(self, n, q):
        """the projected answer to a request"""
        try:
            a = n["node"][X.req(q)]
        except Exception as e:
            return {"err": type(e).__name__, "a": {"dims": [], "shape": [], "c": [], "u": proj.unit("1"), "pos": "", "dt": "f"}}, None
        from pyconform.physarray import PhysArray
        if not isinstance(a, PhysArray): a = PhysArray(a)
        a0 = a
        if q["t"] == "none": return {"err": "", "a": cells_none(a)}, a0
        return {"err": "", "a": physrun.arr_json(a)}, a0

def reduced(e):
    """dimensions that some function in the expression reduces over: only whole requests make sense along them"""
    out = set()
    if e["t"] == "fn" and e["n"] in ("mean", "sum", "min", "max"): out |= {a["v"] for a in e["a"][1:]}
    for a in e.get("a", []): out |= reduced(a)
    if e["t"] == "fn" and e["n"] == "chdims" and out: out |= {a["v"] for a in e["a"][1:]}
    return out

def some_request(r, dims, size, ints=0.25, none=0.15):
    """a request for a part by dimension names"""
    if r.random() < none: return {"t": "none", "x": []}
    w = r.uniform(0.15, 1)
    if w < 0.35: return {"t": "tuple", "x": [X.FULL], "bare": True}
    if w < 0.45: return {"t": "dict", "x": []}
    ds = [d for d in dims if r.random() < 0.7]; r.shuffle(ds)
    x = [{"d": d, "e": X.rnd_elem(r, size[d], ints, 0.0)} for d in ds]
    if r.random() < 0.15: x.insert(r.randint(0, len(x)), {"d": "unused", "e": X.sl(0, 1)})
    return {"t": "dict", "x": x}
