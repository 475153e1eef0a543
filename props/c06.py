"""C06: positive direction and sign stay consistent."""
from lib import flowprop as P
MODULE = "Check_C06"
RULE = "random steps of arrays and random conversions in which most arrays and output variables have a positive direction"
REQUIRED_TAGS = ["step:add", "step:sub", "step:mul", "step:div", "step:pow", "step:ipow", "step:neg", "step:up", "step:down", "step:flip", "fn:up", "fn:down", "step_opposite", "step_half_directed", "written",
                 "flipped_on_output", "op:up", "op:down", "step:iadd", "step:convert"]
K = {"p_pos": 0.75, "p_missing": 0.1, "p_badunit": 0.02, "ops": ["add", "sub", "mul", "div", "floordiv", "pow", "ipow", "neg", "up", "down", "flip", "convert", "mean", "transpose", "get", "iadd", "isub", "imul", "idiv", "fn", "fn"],
     "fn": ["up", "down", "limit", "mean", "chunits", "sqrt"]}
F = {"p_pos": 0.8, "p_up": 0.35, "p_range": 0.0, "p_bad": 0.01, "nvars": [1, 3]}
def design(tier):
    return [{"module": "MC_Direction"}]
def scenarios(ck):
    return P.plan(ck, [("op", 60, K), ("run", 260, F)], [("op", 800, K), ("run", 4000, F)])
drive = P.drive
