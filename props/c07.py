"""C07: evaluating an expression never alters data it did not create."""
import copy, os, random, shutil
from lib import env, flowprop as P, flowrun, flowgen, graph
from props import c30, c31
MODULE = "Check_C07"
RULE = ("random steps of arrays, all live arrays (views included) compared before and after; node graphs with shared leaves, requests to any nodes in any order, each repeated after others; "
        "data flows executed twice and in chunks in between, over the same descriptions, and compared bit by bit with a fresh one")
REQUIRED_TAGS = ["step:add", "step:sub", "step:mul", "step:div", "step:pow", "step:neg", "step:convert", "step:transpose", "step:get", "step:mean", "step:sum", "step:iadd", "step:set", "step:up", "step:flip",
                 "fn:mean", "fn:sum", "fn:min", "fn:max", "fn:sqrt", "fn:up", "fn:down", "fn:rmunits", "fn:chunits", "fn:limit", "fn:chdims", "step_opposite", "step_in_place",
                 "repeated_library", "library_unchanged", "repeated_request", "repeated_run", "chunked_between", "written", "inputs_unchanged"]
F = {"p_bad": 0.0, "p_data": 0.2, "p_skip": 0.0, "p_fn": 0.5, "nvars": [1, 3], "p_pos": 0.6, "p_missing": 0.4}
K = {"p_view": 0.5, "p_pos": 0.6}
def scenarios(ck):
    lib = ["lib:" + m for m in c30.MODES + ["ocean", "pieces"]]
    L = {"p_chunk": 0.0}
    return P.plan(ck, [(m, 9, L) for m in lib] + [("op", 45, K), ("op", 20, dict(K, p_missing=0.8)), ("graph", 90, F), ("twice", 60, F)], [(m, 300, L) for m in lib] + [("op", 700, K), ("op", 300, dict(K, p_missing=0.8)), ("graph", 1500, F), ("twice", 1200, F)])

def drive(scn, d):
    if scn["s"].startswith("lib:"): return drive_library(scn, d)
    if scn["s"] == "op": return P.ops(scn)
    return (drive_graph if scn["s"] == "graph" else drive_twice)(scn, d)

def drive_graph(scn, d):
    out = []
    r = random.Random(scn["seed"] + 1)
    for run, dd in P.runs(scn, d):
        g, _ = P.graph_of(run, dd, r, 0)
        before = {n: graph.digest(a) for n, a in g.data.items()}
        first = {}
        todo = []
        for _ in range(min(20, 2 * len(g.nodes))):
            k = r.randrange(len(g.nodes))
            todo.append((k, None))
        asked = []
        pairs = []
        for k, _ in todo:
            n = g.nodes[k]
            rec = P.ask(g, n, r, none=0.3)
            out.append(rec)
            asked.append((k, rec["q"]))
            if r.random() < 0.6:
                j, q = r.choice(asked)
                again = P.ask(g, g.nodes[j], r, dict(q, bare=True))
                key = (j, repr(q))
                old = next(x for x in out if x.get("kind") == "node" and x["q"] == q and x["ast"] is g.nodes[j]["ast"] and x["node"] == g.nodes[j]["k"] and x["map"] == g.nodes[j]["map"])
                pairs.append({"k": "repeated_request", "a": repr(old["obs"]), "b": repr(again["obs"])})
        if pairs: out.append({"kind": "same", "tag": "repeated_request", "pairs": pairs, "run": run})
        if before: out.append({"kind": "same", "tag": "inputs_unchanged", "pairs": [{"k": "data_of_node", "a": before[n], "b": graph.digest(g.data[n])} for n in sorted(before)], "run": run})
    return out

def drive_library(scn, d):
    """functions of the library of modules: the same request before and after others, the given data before and after"""
    out = []
    r = random.Random(scn["seed"] + 1)
    mode = scn["s"].split(":")[1]
    make = c30.Axes if mode in c30.MODES else c31.Fields
    for k in range(scn["n"]):
        run = make(random.Random(r.randint(0, 10 ** 9)), mode, **scn["kw"]).run()
        dd = os.path.join(d, "r%d" % k); os.makedirs(dd)
        g, _ = P.graph_of(run, dd, r)
        nodes = [n for n in g.nodes if n["ast"]["t"] != "var"]
        before = {n: graph.digest(a) for n, a in g.data.items()}
        asked = [(n, P.ask(g, n, r, ints=0.0, none=0.05)) for n in nodes for _ in range(2)]
        r.shuffle(asked)
        pairs = [{"k": "repeated_request", "a": repr(old["obs"]), "b": repr(P.ask(g, n, r, dict(old["q"], bare=True))["obs"])} for n, old in asked]
        if pairs: out.append({"kind": "same", "tag": "repeated_library", "pairs": pairs, "run": run})
        if before: out.append({"kind": "same", "tag": "library_unchanged", "pairs": [{"k": "data_of_node", "a": before[n], "b": graph.digest(g.data[n])} for n in sorted(before)], "run": run})
        shutil.rmtree(dd, ignore_errors=True)
    return out

def drive_twice(scn, d):
    out = []
    r = random.Random(scn["seed"] + 1)
    for run, dd in P.runs(scn, d):
        inputs = flowrun.write_inputs(run, dd)
        d0 = os.path.join(dd, "fresh"); os.makedirs(d0)
        a = flowrun.execute(run, d0, inputs=inputs)
        out.append(P.rec(run, a))
        d1 = os.path.join(dd, "again"); os.makedirs(d1)
        sums = [P.md5(x) for x in inputs]
        o2i = {x["o"] for x in a["dmap"]}
        ch = [None]
        if r.random() < 0.6 and o2i: ch.append({d: r.choice([1, 2, 3]) for d in r.sample(sorted(o2i), r.randint(1, len(o2i)))})
        ch.append(None)
        dirs = flowrun.execute_many(run, d1, inputs, ch, rebuild=r.random() < 0.3)
        for k, (dk, err) in enumerate(dirs):
            if ch[k] is not None and err: continue
            pairs = [{"k": "refused_again", "a": bool(a["err"]), "b": bool(err)}]
            if not a["err"] and not err: pairs += P.same_files(d0, dk)
            out.append({"kind": "same", "tag": "chunked_between" if ch[k] is not None else "repeated_run", "pairs": pairs, "run": run})
        out.append({"kind": "same", "tag": "inputs_unchanged", "pairs": [{"k": "input_files", "a": sums, "b": [P.md5(x) for x in inputs]}], "run": run})
    return out
