"""C11: input dimensions are mapped one-to-one to output dimensions or refused."""
import copy, os, random
from lib import flowprop as P, flowrun, flowgen as G, idx as X
MODULE = "Check_C11"
RULE = ("random conversions with renamed dimensions, each also with its variables listed in another order; data flows that are only built, with up to six variables "
        "whose declared dimensions are permuted, renamed consistently or not, shortened or extended")
REQUIRED_TAGS = ["written", "renamed", "refused_map", "map_refused", "map_found", "map_of_three", "map_crosses_names", "order", "three_dims"]
F = {"p_rename": 0.9, "nvars": [2, 4], "depth": 1, "p_range": 0.0, "p_bad": 0.02, "p_data": 0.4}
def design(tier):
    return [{"module": "MC_DimMap", "cfg": "MC_DimMap.cfg" if tier == "quick" else "MC_DimMap_thorough.cfg"}]
def scenarios(ck):
    yield from P.plan(ck, [("run", 90, F)], [("run", 2000, F)])
    for _ in range(32 if ck.quick else 1500): yield {"s": "map", "seed": ck.rng.randint(0, 10 ** 9), "n": 20}

class MapGen(object):
    def __init__(self, r): self.r = r
    def run(self):
        r = self.r
        g = G.Gen(r)
        idims = r.sample(["a", "b", "c", "d", "x", "y"], r.choice([2, 3, 3, 4]))
        size = {d: r.choice([1, 2, 2, 3]) for d in idims}
        if r.random() < 0.3: odims = r.sample(["x", "y", "a", "b", "c", "p", "q"], len(idims))
        elif r.random() < 0.5: odims = r.sample(["p", "q", "r", "s", "t"], len(idims))
        else: odims = list(idims); r.shuffle(odims)
        omap = dict(zip(idims, odims))
        inp = []
        for k in range(r.randint(2, 5)):
            dims = [d for d in idims if r.random() < 0.6]; r.shuffle(dims)
            n = 1
            for d in dims: n *= size[d]
            inp.append({"n": "v%d" % k, "dims": dims, "shape": [size[d] for d in dims], "dt": "f", "un": {"n": "1", "ref": [], "cal": ""}, "pos": "", "c": [[i + 1, 1] for i in range(n)], "fam": "one", "f": [0]})
        vs = []
        names = r.sample(["alpha", "beta", "gamma", "delta", "b1", "b10", "b2", "zeta", "A", "Z"], r.randint(1, 5))
        for n in names:
            w = r.random()
            v = r.choice(inp)
            ast, dims = G.var(v["n"]), list(v["dims"])
            if w < 0.2 and dims:
                x = [X.it(0) if r.random() < 0.5 else X.FULL for _ in dims]
                dims = [d for d, e in zip(dims, x) if e["k"] == "s"]
                while x and x[-1] == X.FULL: x.pop()
                ast = G.var(v["n"], x)
            elif w < 0.5:
                u = r.choice(inp)
                ast, dims = G.op("*", ast, G.var(u["n"])), dims + [d for d in u["dims"] if d not in dims]
            elif w < 0.65 and dims:
                S = r.sample(dims, r.randint(1, len(dims)))
                ast, dims = G.fn("mean", ast, *[G.st(d) for d in S]), [d for d in dims if d not in S]
            od = [omap[d] for d in dims]
            if r.random() < 0.5: r.shuffle(od)
            w = r.random()
            if w < 0.05 and od: od.pop(r.randrange(len(od)))
            elif w < 0.1: od.append(r.choice([o for o in odims + ["extra"] if o not in od]))
            elif w < 0.25 and od:
                q = [o for o in odims + ["other"] if o not in od]
                if q: od[r.randrange(len(od))] = r.choice(q)
            vs.append(g.blank(n, ast=ast, dims=od))
        if r.random() < 0.3:
            o = r.choice(odims)
            vs.append(g.blank("g0", kind="data", dims=[o], shape=[size[idims[odims.index(o)]]], c=[[i, 1] for i in range(size[idims[odims.index(o)]])]))
        for i, n in enumerate(sorted(v["n"] for v in vs)): next(v for v in vs if v["n"] == n)["rank"] = i
        files = [{"n": "f%d.nc" % i, "owner": v["n"], "meta": []} for i, v in enumerate(vs)]
        return {"inp": inp, "unlim": [], "vars": vs, "files": files, "chunks": [], "loose": False}

def shuffled(run, r):
    q = copy.deepcopy(run); r.shuffle(q["vars"]); r.shuffle(q["files"])
    return q

def drive(scn, d):
    out = []
    r = random.Random(scn["seed"] + 1)
    if scn["s"] == "map":
        for k in range(scn["n"]):
            run = MapGen(r).run()
            inputs = flowrun.write_inputs(run, d)
            a = flowrun.execute(run, d, inputs=inputs, build_only=True)
            out.append({"kind": "map", "run": run, "obs": a})
            b = flowrun.execute(shuffled(run, r), d, inputs=inputs, build_only=True)
            out.append({"kind": "same", "tag": "order", "run": run, "pairs": [{"k": "refused_in_another_order", "a": bool(a["err"]), "b": bool(b["err"])}] +
                        ([] if a["err"] or b["err"] else [{"k": "map_in_another_order", "a": sorted((x["i"], x["o"]) for x in a["dmap"]), "b": sorted((x["i"], x["o"]) for x in b["dmap"])}])})
        return out
    for run, dd in P.runs(scn, d):
        inputs = flowrun.write_inputs(run, dd)
        d0, d1 = os.path.join(dd, "a"), os.path.join(dd, "b")
        os.makedirs(d0); os.makedirs(d1)
        a = flowrun.execute(run, d0, inputs=inputs)
        out.append(P.rec(run, a))
        q = shuffled(run, r)
        b = flowrun.execute(q, d1, inputs=inputs)
        out.append(P.rec(q, b))
        if not a["err"] and not b["err"]:
            out.append({"kind": "same", "tag": "order", "run": run, "pairs": P.same_files(d0, d1)})
    return out
