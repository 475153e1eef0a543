"""C17: validation masks or reports exactly what lies outside the declared limits."""
from lib import flowprop as P
MODULE = "Check_C17"
RULE = "random conversions with valid minima and maxima (zero and values on the limit included), limits of the mean absolute value, and declared types that cannot hold the data"
REQUIRED_TAGS = ["written", "validation_warning", "missing", "chunked", "refused_variable", "range_low", "range_high", "range_zero", "on_limit", "mean_low", "mean_high"]
F = {"p_range": 1.0, "p_mean": 0.5, "p_f4": 0.0, "p_bad": 0.01, "p_nocoord": 0.2}
def scenarios(ck):
    return P.plan(ck, [("run", 260, F), ("run", 60, dict(F, p_chunk=1.0)), ("run", 60, dict(F, p_int=0.1))], [("run", 4000, F), ("run", 1000, dict(F, p_chunk=1.0)), ("run", 800, dict(F, p_int=0.1))])
drive = P.drive
