"""C12: each output file holds exactly the variables it needs."""
import os, random, shutil
from lib import flowprop as P, flowrun, flowgen as G, idx as X
from props import c18
MODULE = "Check_C12"
RULE = ("random specifications with up to nine variables over four dimensions, scalars, bounds and coordinates in chains, circles and through other files, lists of metadata, up to four files with formats and attributes "
        "of their own; as described by the library, and as written; names that are not there, owners without definition, files owned twice")
REQUIRED_TAGS = ["described", "names_nothing", "owned_twice", "several_files", "many_files", "metadata_by_dimensions", "named_by_others", "named_transitively", "named_over_three_steps", "owner_in_other_file",
                 "scalar_named", "scalar_left_out", "brings_dimensions", "names_itself", "in_no_file", "owner_without_definition", "formats_differ", "written", "w:several_files", "w:named_transitively",
                 "w:owner_in_other_file", "w:scalar_named", "w:brings_dimensions", "w:formats_differ", "given_data"]
def design(tier):
    return [{"module": "MC_Files", "cfg": "MC_Files.cfg" if tier == "quick" else "MC_Files_thorough.cfg"}]
def scenarios(ck):
    for kind, n, size in ([("desc", 16, 40), ("run", 16, 9)] if ck.quick else [("desc", 300, 60), ("run", 400, 9)]):
        for _ in range(n): yield {"s": kind, "seed": ck.rng.randint(0, 10 ** 9), "n": size}

def make(r, writable):
    g = G.Gen(r)
    dims = ["x", "y", "z", "t"][:r.choice([2, 3, 3, 4])]
    size = {d: r.choice([1, 2, 2, 3]) for d in dims}
    inp, vs = [], []
    one = {"n": "1", "ref": [], "cal": ""}
    def add_inp(ds):
        n = 1
        for d in ds: n *= size[d]
        inp.append({"n": "i%d" % len(inp), "dims": list(ds), "shape": [size[d] for d in ds], "dt": "f", "un": one, "pos": "", "c": [[k + 1, 2 if k % 2 == 0 else 1] for k in range(n)], "fam": "one", "f": [0]})
        return inp[-1]["n"]
    # (every dimension is one an input variable has, and is matched by a variable of that dimension alone)
    base = {d: add_inp([d]) for d in dims}
    names = r.sample(["tas", "pr", "lat_bnds", "lon", "area", "orog", "p0", "b", "a", "hyam", "Z"], r.randint(3, 9))
    if writable:
        for d in dims: vs.append(g.blank("c_" + d, ast=G.var(base[d]), dims=[d], axis=True, axisname="XYZT"["xyzt".index(d)]))
    for n in names:
        w = r.random()
        ds = [d for d in dims if r.random() < 0.45]; r.shuffle(ds)
        if w < 0.15:
            ds = (ds[:1] + ["bnd"]) if r.random() < 0.7 else ["bnd"]
            m = 2 * (size[ds[0]] if len(ds) == 2 else 1)
            vs.append(g.blank(n, kind="data", dims=ds, shape=[size.get(d, 2) for d in ds], c=[[k, 1] for k in range(m)]))
        elif w < 0.35: vs.append(g.blank(n, ast=G.fn("sum", G.var(base[dims[0]]), G.st(dims[0])), dims=[]))
        else: vs.append(g.blank(n, ast=G.var(add_inp(ds)), dims=ds))
        if r.random() < 0.04: vs[-1]["kind"] = r.choice(["none", "none"]); vs[-1]["blankdef"] = r.random() < 0.5
    allnames = [v["n"] for v in vs]
    good = [v["n"] for v in vs if v["kind"] != "none"]
    dense = r.random()
    for v in vs:
        if r.random() < 0.2 + 0.3 * dense: v["bounds"] = r.choice(good or allnames)
        if r.random() < 0.15 + 0.3 * dense: v["coords"] = r.sample(good, min(len(good), r.choice([1, 1, 2, 3])))
        if r.random() < 0.008: v["bounds"] = r.choice(["nothere", ""])
        if r.random() < 0.008: v["coords"] = v["coords"] + ["nothere"]
    own = r.sample(names, min(len(names), r.choice([1, 1, 2, 2, 3, 4])))
    files = []
    one_format = r.random() < 0.3
    fm = r.choice(c18.FMTS + [""])
    for k, n in enumerate(own):
        meta = r.sample(good, min(len(good), r.choice([0, 0, 1, 2, 3])))
        if r.random() < 0.01: meta = meta + ["nothere"]
        f = {"n": r.choice(["f%d.nc", "sub_%d.nc"]) % k if r.random() > 0.02 or not files else files[0]["n"], "owner": n, "meta": meta}
        x = fm if one_format else r.choice(c18.FMTS + [""])
        if x: f["format"] = x
        if r.random() < 0.6: f["gattrs"] = [list(a) for a in r.sample(c18.GATTRS, r.randint(0, 3)) if a[0] != "creation_date"]
        files.append(f)
    r.shuffle(vs); r.shuffle(files)
    for i, n in enumerate(sorted(v["n"] for v in vs)): next(v for v in vs if v["n"] == n)["rank"] = i
    for v in vs:
        v["hidden"] = False
        v["u"]["blank"] = v["blank"] = "?"
        # (formats differ in the types they have)
        v["type"] = "float" if v["ot"] == "f4" else "double"
    hdr = {"vars": [], "history": False, "deflate": [], "files": [{"n": f["n"], "fmt": f.get("format", ""), "deflate": [], "gattrs": [{"k": k, "v": c18.norm(x)} for k, x in f.get("gattrs") or []]} for f in files]}
    return {"inp": inp, "unlim": [], "vars": vs, "files": files, "chunks": [], "loose": False}, hdr

def drive(scn, d):
    r = random.Random(scn["seed"])
    out = []
    norm0, flowrun.attr_json = flowrun.attr_json, c18.norm
    spec0 = flowrun.spec_dict
    flowrun.spec_dict = lambda run: c18._with(run, spec0)
    try:
        for k in range(scn["n"]):
            run, h = make(random.Random(r.randint(0, 10 ** 9)), scn["s"] == "run")
            if scn["s"] == "desc": obs = describe(run)
            else:
                dd = os.path.join(d, "r%d" % k); os.makedirs(dd)
                obs = flowrun.execute(run, dd, full=True)
                for f in obs["files"]:
                    f["gattrs"] = [{"k": a, "v": x} for a, x in f["gattrs"]]
                    for v in f["vars"]: v["attrs"] = []
                shutil.rmtree(dd, ignore_errors=True)
            out.append({"kind": scn["s"], "run": c18.bare(run), "obs": obs, "loose": False, "hdr": h})
    finally:
        flowrun.attr_json, flowrun.spec_dict = norm0, spec0
    return out

def describe(run):
    import warnings
    from pyconform.datasets import OutputDatasetDesc
    obs = {"err": "", "files": []}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try: o = OutputDatasetDesc("out", flowrun.spec_dict(run))
        except Exception as e:
            obs["err"] = flowrun.errname(e)
            return obs
    for n, f in o.files.items():
        obs["files"].append({"n": n, "vars": list(f.variables), "dims": list(f.dimensions), "fmt": f.format, "gattrs": [{"k": a, "v": c18.norm(x)} for a, x in f.attributes.items()]})
    return obs
