"""C04: units follow the algebra of physical quantities."""
from lib import flowprop as P
MODULE = "Check_C04"
RULE = ("random steps of arrays and random conversions with several units of the same quantity (offsets, scales, reference dates and calendars), "
        "without directions, so that only units decide")
REQUIRED_TAGS = ["step:add", "step:sub", "step:mul", "step:div", "step:pow", "step:convert", "step:iadd", "step:idiv", "step:invert", "fn:sqrt", "fn:chunits", "step_converted",
                 "step_inconvertible", "written", "converted", "refused_definition", "op:+2", "op:*2", "op:**2", "step_times", "step_calendars", "convert_times", "convert_calendars", "chunits_by_parts", "chunits_calendar"]
NODIR = {"p_pos": 0.0, "p_up": 0.0, "p_missing": 0.1}
U = dict(NODIR, p_unit=0.95, p_range=0.0, p_files=0.3, p_nocoord=0.05, fams=None)
def design(tier):
    return [{"module": "MC_Units", "cfg": "MC_Units.cfg" if tier == "quick" else "MC_Units_thorough.cfg"}]
TT = {"ops": ["add", "sub", "convert", "convert", "iadd", "isub", "fn"], "fn": ["chunits"], "p_time": 0.75, "p_badunit": 0.15}
def scenarios(ck):
    T = {"ops": ["add", "sub", "mul", "div", "pow", "convert", "convert", "iadd", "isub", "imul", "idiv", "ipow", "invert", "floordiv", "fn"], "fn": ["sqrt", "chunits", "rmunits", "convert" if False else "sqrt"]}
    return P.plan(ck, [("op", 40, dict(T, p_pos=0.0)), ("op", 20, dict(T, p_pos=0.0, fams=["temp", "one"], p_badunit=0.3)), ("op", 24, TT), ("run", 120, U), ("run", 40, dict(U, p_tunit=0.7)), ("run", 60, dict(U, fams=["temp"])), ("run", 60, dict(U, p_bad=0.5)), ("run", 50, dict(U, p_int=0.9))],
                  [("op", 500, dict(T, p_pos=0.0)), ("op", 200, dict(T, p_pos=0.0, fams=["temp", "one"], p_badunit=0.3)), ("op", 300, TT), ("run", 2000, U), ("run", 600, dict(U, p_tunit=0.7)), ("run", 600, dict(U, fams=["temp"])), ("run", 600, dict(U, p_bad=0.5)), ("run", 600, dict(U, p_int=0.9))])
drive = P.drive
