"""C01: written variables equal what their definitions denote."""
from lib import flowprop as P
MODULE = "Check_C01"
RULE = "random conversions: every feature of definitions and declarations, a chosen share of meaningless ones, some in chunks"
REQUIRED_TAGS = ["written", "refused", "refused_definition", "refused_map", "missing", "converted", "flipped_on_output", "transposed", "renamed", "three_dims",
                 "several_files", "given_data", "op:+2", "op:-2", "op:*2", "op:/2", "op:**2", "op:-1", "op:mean", "op:sum", "op:min", "op:max", "op:limit", "op:up", "op:down",
                 "op:chunits", "op:rmunits", "op:sqrt", "op:index", "inverted", "unlimited", "chunked"]
def scenarios(ck):
    return P.plan(ck, [("run", 380, {}), ("run", 60, {"p_chunk": 1.0}), ("run", 60, {"p_bad": 0.4}), ("run", 60, {"nvars": [1, 2], "depth": 5, "p_meta": 0.1, "p_files": 0.1})],
                  [("run", 6000, {}), ("run", 1500, {"p_chunk": 1.0}), ("run", 1000, {"p_bad": 0.4}), ("run", 1500, {"nvars": [1, 2], "depth": 5, "p_meta": 0.1, "p_files": 0.1})])
drive = P.drive
