"""C16: coordinates are written in the declared direction with their data."""
from lib import flowprop as P
MODULE = "Check_C16"
RULE = "random conversions in which most coordinates declare a direction, over one to three dimensions, in one piece and in chunks"
REQUIRED_TAGS = ["written", "inverted", "chunked", "three_dims", "missing", "refused_variable", "unlimited", "transposed"]
F = {"p_dir": 0.85, "p_nocoord": 0.0, "p_bad": 0.01, "p_range": 0.1, "nvars": [1, 3], "p_flat": 0.1}
def design(tier):
    return [{"module": "MC_Chunks"}]
def scenarios(ck):
    return P.plan(ck, [("run", 180, F), ("run", 160, dict(F, p_chunk=1.0)), ("run", 40, dict(F, p_chunk=0.5, p_unlim=1.0))], [("run", 2500, F), ("run", 2500, dict(F, p_chunk=1.0)), ("run", 500, dict(F, p_chunk=0.5, p_unlim=1.0))])
drive = P.drive
