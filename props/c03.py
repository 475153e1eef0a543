"""C03: composition of index expressions."""
import itertools, os, random
import numpy as np
from lib import idx as X

MODULE = "Check_C03"
RULE = ("all pairs of slices/integers over one axis with small bounds, and random multi-axis pairs, aligned requests, "
        "array accesses and reads from a file through a definition index and a request")
REQUIRED_TAGS = ["join", "align", "item", "read", "refused", "empty", "several_cells", "ellipsis", "request_dict", "request_none"]

def design(tier):
    return [{"module": "MC_Join", "cfg": "MC_Join.cfg" if tier == "quick" else "MC_Join_thorough.cfg"}]

def _slices(n, quick):
    bs = [None] + list(range(-n - 1, n + 2))
    if quick: bs = [None, -n - 1, -n, -1, 0, 1, n - 1, n, n + 1]
    bs = sorted(set(bs), key=lambda x: (x is not None, x))
    return [X.sl(a, b, c) for a in bs for b in bs for c in (None, 2, 3, -1, -2)]

def _len(p):
    try: return np.size(np.zeros(p[0])[X.elem(p[1])][X.elem(p[2])])
    except IndexError: return 1

def scenarios(ck):
    rng = ck.rng
    # one axis: all pairs (sampled in the quick tier), in batches
    pairs = []
    for n in ((0, 1, 3, 4, 6) if ck.quick else (0, 1, 2, 3, 4, 5, 6, 7)):
        el = _slices(n, ck.quick) + [X.it(v) for v in range(-n - 1, n + 1)]
        ps = [(n, a, b) for a in el for b in el]
        rng.shuffle(ps)
        if ck.quick:
            full, empty = [], []
            for p in ps:
                if len(full) < 600: (full if _len(p) else empty).append(p)
            ps = full + empty[:150]
        pairs += ps[:40000]
    rng.shuffle(pairs)
    B = 250
    for i in range(0, len(pairs), B):
        yield {"s": "join", "items": [{"shape": [n], "i1": [a], "i2": [b]} for n, a, b in pairs[i:i + B]]}
    for _ in range(4 if ck.quick else 60):
        yield {"s": "rnd", "seed": rng.randint(0, 10 ** 9), "n": 250}
    for _ in range(8 if ck.quick else 60):
        yield {"s": "read", "seed": rng.randint(0, 10 ** 9), "n": 60}

def _apply(shape, f):
    A = np.arange(int(np.prod(shape)), dtype=int).reshape(shape)
    try:
        r = f(A)
    except IndexError as e:
        return {"err": "IndexError", "got": [], "gotshape": []}
    except Exception as e:
        return {"err": type(e).__name__, "got": [], "gotshape": []}
    r = np.asarray(r)
    return {"err": "", "got": [int(v) for v in r.flatten()], "gotshape": list(r.shape)}

def _join(item):
    from pyconform.indexing import join
    shape = tuple(item["shape"])
    o = _apply(shape, lambda A: A[join(shape, X.tup(item["i1"]), X.tup(item["i2"]))])
    return dict(item, kind="join", **o)

def _align(shape, dims, q):
    from pyconform.indexing import align_index
    def f(A):
        t = align_index(X.req(q), tuple(dims))
        return A[t]
    o = _apply(shape, f)
    return dict(kind="align", shape=list(shape), dims=dims, q=q, **o)

def _item(shape, dims, q):
    from pyconform.physarray import PhysArray
    gd = []
    def f(A):
        a = PhysArray(A, name="a", units="m", dimensions=tuple(dims))
        r = a[X.req(q)]
        if isinstance(r, PhysArray): gd.extend(r.dimensions)
        return r
    o = _apply(shape, f)
    return dict(kind="item", shape=list(shape), dims=dims, q=q, gotdims=list(gd), **o)

def drive(scn, d):
    if scn["s"] == "join":
        return [_join(i) for i in scn["items"]]
    rng = random.Random(scn["seed"])
    out = []
    if scn["s"] == "rnd":
        for _ in range(scn["n"]):
            nd = rng.choice([0, 1, 1, 2, 2, 3])
            shape = [rng.choice([0, 1, 2, 3, 4, 5]) if rng.random() < 0.3 else rng.choice([2, 3, 4]) for _ in range(nd)]
            dims = ["x", "y", "z"][:nd]; rng.shuffle(dims)
            w = rng.random()
            if w < 0.5:
                i1 = X.rnd_index(rng, shape)
                # the second index is made for the shape the first one leaves
                try: s1 = np.zeros(shape)[X.tup(i1)].shape if nd else ()
                except IndexError: s1 = tuple(shape)
                i2 = X.rnd_index(rng, list(s1))
                out.append(_join({"shape": shape, "i1": i1, "i2": i2}))
            elif w < 0.75: out.append(_align(shape, dims, X.rnd_req(rng, dims, shape)))
            else: out.append(_item(shape, dims, X.rnd_req(rng, dims, shape)))
        return out
    # reads from a file
    from netCDF4 import Dataset
    from pyconform.datasets import InputDatasetDesc
    from pyconform.flownodes import ReadNode
    shapes = {"a": 3, "b": 4, "c": 2}
    vs = {}
    fn = os.path.join(d, "in.nc")
    with Dataset(fn, "w") as nc:
        for k, n in shapes.items(): nc.createDimension(k, n)
        for dims in ((), ("a",), ("b", "a"), ("c", "b", "a"), ("a", "c", "b")):
            v = nc.createVariable("v_" + "".join(dims), "i4", dims)
            sh = [shapes[x] for x in dims]
            v[...] = np.arange(int(np.prod(sh)), dtype="i4").reshape(sh)
            vs[v.name] = (list(dims), sh)
    ids = InputDatasetDesc("in", [fn])
    for _ in range(scn["n"]):
        name = rng.choice(sorted(vs)); dims, shape = vs[name]
        i1 = X.rnd_index(rng, shape, pint=0.2)
        if not dims: i1 = []
        try: s1 = np.zeros(shape)[X.tup(i1)] if dims else np.zeros(())
        except IndexError: s1 = np.zeros(shape)
        keep = [x for x, e in zip(dims, _expand(i1, len(dims))) if e["k"] != "i"] if s1.ndim != len(dims) else list(dims)
        sh1 = list(s1.shape)
        if len(keep) != len(sh1): continue
        q = X.rnd_req(rng, keep, sh1, pint=0.2) if keep else {"t": "none", "x": []}
        gd = []
        def f(A):
            r = ReadNode(ids.variables[name], index=X.tup(i1) if i1 else ())[X.req(q)]
            gd.extend(r.dimensions)
            return r
        o = _apply(shape, f)
        out.append(dict(kind="read", shape=shape, dims=dims, i1=i1, q=q, gotdims=list(gd), **o))
    return out

def _expand(i, nd):
    e = [k for k, x in enumerate(i) if x["k"] == "e"]
    if not e: return i + [X.FULL] * (nd - len(i))
    p = e[0]
    return i[:p] + [X.FULL] * (nd - len(i) + 1) + i[p + 1:]
