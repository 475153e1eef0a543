"""C24: reductions are over the named dimensions of the valid cells."""
from lib import flowprop as P
MODULE = "Check_C24"
RULE = "random steps of arrays (array reductions and reduction functions, whole and partial requests) and conversions with reductions over every set of dimensions, many cells missing"
REQUIRED_TAGS = ["step:mean", "step:sum", "fn:mean", "fn:sum", "fn:min", "fn:max", "step_missing", "written", "op:mean", "op:sum", "op:min", "op:max", "missing"]
K = {"p_missing": 0.6, "p_clash": 0.0, "ops": ["mean", "sum", "fn", "fn", "fn", "transpose", "add", "mul"], "fn": ["mean", "sum", "min", "max"]}
F = {"p_missing": 0.6, "p_reduce": 0.9, "p_fn": 0.75, "p_bad": 0.01, "p_range": 0.05}
def scenarios(ck):
    return P.plan(ck, [("op", 50, K), ("op", 15, dict(K, dims=["a", "b", "c", "d"])), ("run", 250, F)], [("op", 600, K), ("op", 200, dict(K, dims=["a", "b", "c", "d"])), ("run", 4000, F)])
drive = P.drive
