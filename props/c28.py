"""C28: built-in transformations change only what they are for."""
from lib import flowprop as P
MODULE = "Check_C28"
RULE = "random steps of arrays: each transformation with whole and partial requests, and conversions that use them, in one piece and in chunks"
REQUIRED_TAGS = ["fn:rmunits", "fn:chunits", "fn:chdims", "fn:limit", "written", "op:limit", "op:chunits", "op:rmunits", "chunked", "chunits_by_parts", "chunits_calendar"]
K = {"ops": ["fn", "fn", "fn", "fn", "add", "mul"], "fn": ["rmunits", "chunits", "chdims", "limit"], "p_clash": 0.0}
F = {"p_reduce": 0.0, "p_up": 0.0, "p_fn": 0.75, "p_bad": 0.01}
def scenarios(ck):
    return P.plan(ck, [("op", 50, K), ("op", 20, dict(K, p_time=0.6, fn=["chunits", "chunits", "limit", "chdims"])), ("run", 40, dict(F, p_tunit=0.8)), ("run", 200, F), ("run", 50, dict(F, p_chunk=1.0))], [("op", 700, K), ("op", 300, dict(K, p_time=0.6, fn=["chunits", "chunits", "limit", "chdims"])), ("run", 600, dict(F, p_tunit=0.8)), ("run", 3000, F), ("run", 1000, dict(F, p_chunk=1.0))])
drive = P.drive
