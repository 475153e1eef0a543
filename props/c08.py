"""C08: missing values stay missing and never become numbers."""
from lib import flowprop as P
MODULE = "Check_C08"
RULE = "random steps of arrays and random conversions with many missing cells, divisions by zero, roots of negative values, reductions over partly and completely missing cells"
REQUIRED_TAGS = ["step:add", "step:div", "step:pow", "step:neg", "step:convert", "step:transpose", "step:mean", "step:sum", "fn:limit", "fn:min", "fn:max", "fn:sqrt", "step_missing", "written", "missing", "converted", "flipped_on_output",
                 "transposed", "op:mean", "op:limit"]
K = {"p_missing": 0.9, "p_badunit": 0.02, "p_clash": 0.02}
F = {"p_missing": 0.9, "p_bad": 0.01, "p_fill": 0.5}
def design(tier):
    return [{"module": "MC_Missing", "cfg": "MC_Missing.cfg" if tier == "quick" else "MC_Missing_thorough.cfg"}]
def scenarios(ck):
    return P.plan(ck, [("op", 55, K), ("run", 200, F), ("run", 50, dict(F, p_chunk=1.0))], [("op", 800, K), ("run", 3000, F), ("run", 800, dict(F, p_chunk=1.0))])
drive = P.drive
