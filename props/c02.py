"""C02: chunked writing gives the same files; unsafe chunking is refused."""
import copy, os, random
from lib import flowprop as P, flowrun
MODULE = "Check_C02"
RULE = ("random conversions, each written in one piece and in several chunkings (sizes 1..n+1, one to three dimensions, every order), each result judged by the specification "
        "and compared bit by bit with the file written in one piece; chunk sizes that are no positive integers, unknown dimensions, reduced dimensions")
REQUIRED_TAGS = ["written", "chunked", "same_file", "refused_size", "inverted", "op:mean", "refused", "missing", "unlimited", "several_files"]
ASSUMPTIONS = ["chunk sizes are given to the data flow as a dictionary, as the command line does"]
def design(tier):
    return [{"module": "MC_Chunks", "cfg": "MC_Chunks.cfg" if tier == "quick" else "MC_Chunks_thorough.cfg"}]
def scenarios(ck):
    return P.plan(ck, [("run", 130, {"p_bad": 0.01}), ("run", 30, {"p_bad": 0.01, "p_unlim": 1.0, "p_dir": 0.8}), ("red", 30, {"p_bad": 0.01, "p_reduce": 0.8, "p_fn": 0.6})],
                  [("run", 2000, {"p_bad": 0.01}), ("run", 500, {"p_bad": 0.01, "p_unlim": 1.0, "p_dir": 0.8}), ("red", 500, {"p_bad": 0.01, "p_reduce": 0.8, "p_fn": 0.6})])

def chunkings(r, run):
    ods = sorted({d for v in run["vars"] if v["kind"] == "def" for d in v["dims"]})
    size = {}
    for v in run["inp"]:
        for d, n in zip(v["dims"], v["shape"]): size[d] = n
    nmax = max(list(size.values()) or [1])
    out = []
    for _ in range(3):
        if not ods: break
        ds = r.sample(ods, min(len(ods), r.choice([1, 1, 2, 2, 3])))
        out.append([[d, r.choice([1, 1, 2, 2, 3, nmax, nmax + 1])] for d in ds])
    if r.random() < 0.2: out.append(r.choice([[["nodim", 1]], [[ods[0], 0]] if ods else [["nodim", 2]], [[ods[-1], -1]] if ods else [["nodim", 2]]]))
    return out

BAD = [1.5, "2", 2.0, None, [1]]

def drive(scn, d):
    out = []
    r = random.Random(scn["seed"] + 1)
    for run, dd in P.runs(scn, d):
        d0 = os.path.join(dd, "whole"); os.makedirs(d0)
        inputs = flowrun.write_inputs(run, dd)
        obs0 = flowrun.execute(run, d0, inputs=inputs)
        out.append(P.rec(run, obs0))
        for k, ch in enumerate(chunkings(r, run)):
            rc = copy.deepcopy(run); rc["chunks"] = ch
            d1 = os.path.join(dd, "c%d" % k); os.makedirs(d1)
            obs = flowrun.execute(rc, d1, inputs=inputs)
            out.append(P.rec(rc, obs))
            if not obs0["err"] and not obs["err"]:
                names = sorted({f["n"] for f in obs0["files"]} | {f["n"] for f in obs["files"]})
                pairs = []
                for n in names:
                    a, b = os.path.join(d0, "out", n), os.path.join(d1, "out", n)
                    pairs.append({"k": "file", "a": P.bytes_of(a) if os.path.exists(a) else "absent", "b": P.bytes_of(b) if os.path.exists(b) else "absent"})
                out.append({"kind": "same", "tag": "same_file", "pairs": pairs, "chunks": ch, "run": run})
        if r.random() < 0.15 and not obs0["err"] and obs0["dmap"]:
            rc = copy.deepcopy(run); rc["chunks"] = [[obs0["dmap"][0]["o"], r.choice(BAD)]]
            d1 = os.path.join(dd, "bad"); os.makedirs(d1)
            obs = flowrun.execute(rc, d1, inputs=inputs)
            out.append({"kind": "same", "tag": "refused_size", "pairs": [{"k": "bad_chunk_size_accepted", "a": bool(obs["err"]), "b": True},
                        {"k": "bad_chunk_size_written", "a": len(obs["files"]) + len(obs["other"]), "b": 0}], "run": run, "chunks": repr(rc["chunks"])})
    return out
