"""C19: one variable's failure or presence never changes another's output."""
import copy, os, random
from lib import flowprop as P, flowrun, flowgen as G
MODULE = "Check_C19"
RULE = ("random conversions, each again with variables added that cannot be produced (no definition, blank, an absent variable in any place of the definition), with unrelated "
        "variables and files added, with skipped variables removed, and in another order; each judged by the specification, and the files both runs write compared bit by bit")
REQUIRED_TAGS = ["written", "skipped_file", "added_failing", "added_sound", "removed_skipped", "removed_file", "reordered", "several_files", "given_data"]
F = {"p_skip": 0.5, "p_files": 0.6, "nvars": [2, 4], "depth": 2, "p_bad": 0.0, "p_meta": 0.6}
def scenarios(ck):
    return P.plan(ck, [("run", 110, F)], [("run", 2500, F)])

def absent(r, ast):
    a = G.var("absent", [] if r.random() < 0.6 else [G.X.it(0)])
    w = r.random()
    if w < 0.25: return a
    if w < 0.5: return G.op(r.choice("+-*/"), a, ast)
    if w < 0.75: return G.fn(r.choice(["up", "mean", "sqrt"]), a)
    return G.op("*", G.fn("limit", a, above=G.num(3)), G.num(2)) if w < 0.9 else G.fn("limit", ast, above=a)

def rerank(run):
    for i, n in enumerate(sorted(v["n"] for v in run["vars"])): next(v for v in run["vars"] if v["n"] == n)["rank"] = i
    return run
def add(r, run, failing):
    q = copy.deepcopy(run)
    g = G.Gen(r)
    names = r.sample(["aa", "m0", "zz", "o00", "q"], r.randint(1, 2))
    made = [v for v in q["vars"] if v["kind"] == "def"]
    for n in names:
        t = r.choice(made) if made else None
        v = g.blank(n, dims=list(t["dims"]) if t else [])
        v["u"] = dict(G.NOU, blank="?")
        if failing:
            w = r.random()
            if w < 0.2: v["kind"] = "none"
            elif w < 0.35: v["kind"] = "none"; v["blankdef"] = True
            else: v["ast"] = absent(r, t["ast"] if t else G.num(1))
        elif t: v["ast"] = copy.deepcopy(t["ast"]); v["ot"] = t["ot"]
        else: continue
        q["vars"].insert(r.randint(0, len(q["vars"])), v)
        q["files"].insert(r.randint(0, len(q["files"])), {"n": "new_%s.nc" % n, "owner": n, "meta": r.sample([w["n"] for w in run["vars"]], 1) if r.random() < 0.3 else []})
    return rerank(q)
def refs(run, n):
    return any(n == v["bounds"] or n in v["coords"] for v in run["vars"] if v["n"] != n) or any(n in f["meta"] for f in run["files"])
def remove_skipped(r, run):
    q = copy.deepcopy(run)
    bad = [v["n"] for v in q["vars"] if v["kind"] == "none" or "'absent'" in repr(v["ast"])]
    bad = [n for n in bad if not refs(q, n)]
    if not bad: return None
    q["vars"] = [v for v in q["vars"] if v["n"] not in bad]
    q["files"] = [f for f in q["files"] if f["owner"] not in bad]
    return rerank(q) if q["files"] else None
def remove_file(r, run):
    """a file and its variable, if nothing else needs it"""
    c = [f for f in run["files"] if not refs(run, f["owner"])]
    if not c or len(run["files"]) < 2: return None
    f = r.choice(c)
    q = copy.deepcopy(run)
    q["files"] = [g for g in q["files"] if g["n"] != f["n"]]
    q["vars"] = [v for v in q["vars"] if v["n"] != f["owner"]]
    return rerank(q)
def reorder(r, run):
    q = copy.deepcopy(run); r.shuffle(q["vars"]); r.shuffle(q["files"])
    return q

def drive(scn, d):
    out = []
    r = random.Random(scn["seed"] + 1)
    for run, dd in P.runs(scn, d):
        inputs = flowrun.write_inputs(run, dd)
        d0 = os.path.join(dd, "base"); os.makedirs(d0)
        a = flowrun.execute(run, d0, inputs=inputs)
        out.append(P.rec(run, a))
        for k, (tag, q) in enumerate([("added_failing", add(r, run, True)), ("added_sound", add(r, run, False)), ("removed_skipped", remove_skipped(r, run)),
                                      ("removed_file", remove_file(r, run)), ("reordered", reorder(r, run))]):
            if q is None: continue
            d1 = os.path.join(dd, "v%d" % k); os.makedirs(d1)
            b = flowrun.execute(q, d1, inputs=inputs)
            out.append(P.rec(q, b))
            if not a["err"] and not b["err"] and sorted(map(repr, a["dmap"])) == sorted(map(repr, b["dmap"])):
                both = {f["n"] for f in run["files"]} & {f["n"] for f in q["files"]}
                wrote = {f["n"] for f in a["files"]} if tag != "removed_skipped" else None
                pairs = [] if wrote is None else [{"k": "files_written", "a": sorted(wrote & both), "b": sorted({f["n"] for f in b["files"]} & both)}]
                out.append({"kind": "same", "tag": tag, "run": q, "pairs": pairs + P.same_files(d0, d1, sorted(both & {f["n"] for f in a["files"]} & {f["n"] for f in b["files"]}))})
            elif tag in ("added_failing",) and not a["err"] and b["err"]:
                # nothing that fails on its own can break the others, unless it is named by the files it needs
                pass
    return out
