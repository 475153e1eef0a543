"""Index expressions: JSON form used in scenarios and records <-> Python."""
def sl(a=None, b=None, c=None):
    f = lambda x: [] if x is None else [x]
    return {"k": "s", "a": f(a), "b": f(b), "c": f(c)}
def it(v): return {"k": "i", "v": v}
ELL = {"k": "e"}
FULL = sl()
def elem(e):
    if e["k"] == "i": return e["v"]
    if e["k"] == "e": return Ellipsis
    g = lambda x: x[0] if x else None
    return slice(g(e["a"]), g(e["b"]), g(e["c"]))
def tup(idx): return tuple(elem(e) for e in idx)
def req(q):
    if q["t"] == "none": return None
    if q["t"] == "dict": return {p["d"]: elem(p["e"]) for p in q["x"]}
    t = tup(q["x"])
    return t[0] if len(t) == 1 and q.get("bare") else t
def text(idx):
    """the index as it is written in a definition"""
    def one(e):
        if e["k"] == "i": return str(e["v"])
        g = lambda x: str(x[0]) if x else ""
        s = g(e["a"]) + ":" + g(e["b"])
        return s + (":" + g(e["c"]) if e["c"] else "")
    return "[" + ",".join(one(e) for e in idx) + "]"

def rnd_slice(rng, n, wide=3):
    def b():
        return None if rng.random() < 0.3 else rng.randint(-n - wide, n + wide)
    st = rng.choice([None, None, 1, 2, 3, -1, -1, -2, -3, n + 1, -n - 1])
    return sl(b(), b(), st)
def rnd_elem(rng, n, pint=0.25, bad=0.05):
    if rng.random() < pint:
        if rng.random() < bad or n == 0: return it(rng.choice([n, -n - 1, n + 3]))
        return it(rng.randint(-n, n - 1))
    return rnd_slice(rng, n)
def rnd_index(rng, shape, pint=0.25, bad=0.03, ell=True):
    nd = len(shape)
    k = rng.randint(0, nd)
    if rng.random() < 0.05: k = nd + 1
    idx = [rnd_elem(rng, shape[min(i, nd - 1)] if nd else 2, pint, bad) for i in range(k)]
    if ell and rng.random() < 0.25:
        idx = []
        pre = rng.randint(0, nd); suf = rng.randint(0, nd - pre)
        idx = [rnd_elem(rng, shape[i], pint, bad) for i in range(pre)] + [ELL] + [rnd_elem(rng, shape[nd - suf + i], pint, bad) for i in range(suf)]
        if rng.random() < 0.05: idx.append(ELL)
    return idx or [FULL]
def rnd_req(rng, dims, shape, pint=0.25, bad=0.03):
    r = rng.random()
    if r < 0.1: return {"t": "none", "x": []}
    if r < 0.5:
        ds = [d for d in dims if rng.random() < 0.7]
        rng.shuffle(ds)
        x = [{"d": d, "e": rnd_elem(rng, shape[dims.index(d)], pint, bad)} for d in ds]
        if rng.random() < 0.3: x.append({"d": "zz", "e": sl(0, 1)})
        return {"t": "dict", "x": x}
    q = {"t": "tuple", "x": rnd_index(rng, shape, pint, bad)}
    q["bare"] = len(q["x"]) == 1 and rng.random() < 0.7
    return q
