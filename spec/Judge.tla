-------------------------------- MODULE Judge --------------------------------
(* Judgement of the records of all kinds that several properties share: whole conversions, steps of arrays,       *)
(* and comparisons of two observations.                                                                          *)
EXTENDS FlowJudge, MachineJudge
DataClauses == {"values", "missing_cells", "shape", "dimension_order", "type", "units_attribute", "positive_attribute"}
PlanClauses == {"dimension_map", "dimension_lengths", "dimensions_of_file"}
RefusalClauses == {"meaningless_definition_accepted", "meaningless_definition_written", "impossible_plan_accepted", "impossible_plan_written",
                   "impossible_variable_accepted", "impossible_variable_written", "possible_run_refused", "file_not_written"}
ChunkClauses == {"unsafe_chunks_accepted", "unsafe_chunks_written"}
FileClauses == {"variables_of_file", "unexpected_file", "unfinished_file_left"}
SkipClauses == {"skipped_variables_reported", "skipped_files_reported"}
StepClauses == {"result_dimensions", "result_shape", "result_missing", "result_values", "result_units", "result_positive", "result_type",
                "meaningless_operation_accepted", "operation_refused"}
StepPlus(S) == S \cup {c \o "_in_place" : c \in S}
(* two observations that have to be the same: <<[k, a, b]>> *)
JudgeSame(r) == {"differs:" \o r.pairs[i].k : i \in {j \in DOMAIN r.pairs : r.pairs[j].a # r.pairs[j].b}}
JudgeFlow(r, clauses) == LET O == Outcome(r.run) IN [bad |-> JudgeRun(r, O) \cap clauses, tags |-> TagsRun(r, O)]
AssessShared(r, runClauses, stepClauses) ==
  CASE r.kind = "run" -> JudgeFlow(r, runClauses)
    [] r.kind = "op" -> [bad |-> JudgeStep(r) \cap (StepPlus(stepClauses) \cup {"operand_changed"}), tags |-> TagsStep(r)]
    [] r.kind = "same" -> [bad |-> JudgeSame(r), tags |-> {r.tag}]
    [] OTHER -> [bad |-> {"unknown_record"}, tags |-> {}]
=============================================================================
