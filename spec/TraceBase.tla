------------------------------ MODULE TraceBase ------------------------------
(* Common part of all trace specifications.  A trace is a file of records (ndjson), each the projection of one   *)
(* step of the real code.  The trace specification steps over them; Assess(r) gives the set of clauses of the       *)
(* property that record r violates (bad: total, computed from the specification alone) and what r exercises        *)
(* (tags).  Trace.cfg substitutes AssessRecord of the trace specification of the property at hand.                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Assess(_)
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
RECURSIVE JoinSet(_)
JoinSet(S) == IF S = {} THEN "" ELSE LET x == CHOOSE x \in S : TRUE IN " " \o x \o JoinSet(S \ {x})
Line(r) == LET v == Assess(r)
           IN "R " \o ToString(r.id) \o (IF v.bad = {} THEN " ok" ELSE JoinSet(v.bad)) \o " |" \o JoinSet(v.tags)
TraceInit == l = 1
TraceStep == /\ l <= Len(Trace)
             /\ PrintT(Line(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceStep]_l
TraceComplete == l \in 1 .. (Len(Trace) + 1)
Clause(ok, name) == IF ok THEN {} ELSE {name}
Tag(p, name) == IF p THEN {name} ELSE {}
==============================================================================
