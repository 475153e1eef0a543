------------------------------ MODULE Check_Flow ------------------------------
(* Records of whole conversions, judged by every clause. *)
EXTENDS FlowJudge
AssessRecord(r) == LET O == Outcome(r.run) IN [bad |-> JudgeRun(r, O), tags |-> TagsRun(r, O)]
=============================================================================
