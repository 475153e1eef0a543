"""C05: operands are matched by dimension name, never by position."""
from lib import flowprop as P
MODULE = "Check_C05"
RULE = "random steps of arrays over three or four named dimensions stored in every order, with equal and unequal lengths, and conversions that permute dimensions"
REQUIRED_TAGS = ["step:add", "step:sub", "step:mul", "step:div", "step:transpose", "step:get", "step:set", "step:iadd", "step_aligned", "step_lengths_differ", "written", "transposed", "three_dims"]
K = {"p_pos": 0.0, "p_missing": 0.15, "fams": ["len", "one"], "p_badunit": 0.02, "ops": ["add", "sub", "mul", "div", "floordiv", "transpose", "get", "set", "set", "iadd", "isub", "imul", "idiv", "mean"]}
F = {"p_pos": 0.0, "p_up": 0.0, "p_range": 0.0, "nvars": [1, 2], "fams": ["len", "one"], "p_fn": 0.1, "p_bad": 0.02}
def design(tier):
    return [{"module": "MC_Align", "cfg": "MC_Align.cfg" if tier == "quick" else "MC_Align_thorough.cfg"}]
def scenarios(ck):
    return P.plan(ck, [("op", 50, K), ("op", 25, dict(K, dims=["a", "b", "c", "d"], p_clash=0.15)), ("run", 150, F)],
                  [("op", 500, K), ("op", 300, dict(K, dims=["a", "b", "c", "d"], p_clash=0.15)), ("run", 2500, F)])
drive = P.drive
