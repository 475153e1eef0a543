"""C09: metadata of a request does not depend on how much data is requested."""
import copy, os, random
from lib import flowprop as P, flowrun, flowgen, graph
from props import c30 as AX
MODULE = "Check_C09"
RULE = ("node graphs of random definitions built from the public classes (all inner nodes, the map and the validation of the variable), each node asked for nothing, for everything and "
        "for parts by dimension names, in random order; functions on arrays asked in the same ways")
REQUIRED_TAGS = ["request_none", "request_tuple", "request_dict", "request_integer", "node_expr", "node_map", "node_valid", "node:mean", "node:sum", "node:min", "node:max", "node:limit", "node:up", "node:down",
                 "node:chunits", "node:rmunits", "node:sqrt", "node:+2", "node:-2", "node:-1", "node:*2", "node:/2", "node:**2", "node_directed", "node_time", "node:index", "node:chdims",
                 "node:bounds", "node:oclim", "node:oclim_time", "node:monthtoyear_noleap", "node:monthtoyear_noleap_time", "node:yeartomonth_data", "fn:mean", "fn:limit", "fn:chdims", "fn:chunits", "fn:rmunits", "fn:up", "fn:sqrt"]
F = {"p_bad": 0.0, "p_data": 0.0, "p_skip": 0.0, "p_fn": 0.5, "nvars": [1, 3], "p_range": 0.1}
K = {"ops": ["fn", "fn", "fn", "get", "add", "mul"], "p_clash": 0.0, "p_pos": 0.6}
AXES = ["node:year", "node:clim", "node:spread", "node:cells"]
AXF = {"p_chunk": 0.0}
def scenarios(ck):
    return P.plan(ck, [("graph", 110, F), ("graph", 30, dict(F, p_reduce=0.8)), ("graph", 30, dict(F, chdims=1)), ("op", 25, K)] + [(m, 15, AXF) for m in AXES],
                  [("graph", 2000, F), ("graph", 600, dict(F, p_reduce=0.8)), ("graph", 600, dict(F, chdims=1)), ("op", 400, K)] + [(m, 300, AXF) for m in AXES])
def drive(scn, d):
    if scn["s"] == "op": return P.ops(scn)
    if scn["s"] in AXES: return AX.drive(scn, d)
    out = []
    kw = dict(scn["kw"]); chd = kw.pop("chdims", 0)
    r = random.Random(scn["seed"] + 1)
    for run, dd in P.runs(dict(scn, kw=kw), d):
        g, keep = P.graph_of(run, dd, r, chd)
        for _ in range(min(30, 3 * len(g.nodes))):
            n = r.choice(g.nodes[-2:] if r.random() < 0.25 else g.nodes)
            rec = P.ask(g, n, r)
            if rec: out.append(rec)
    return out
