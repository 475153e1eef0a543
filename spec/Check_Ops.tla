------------------------------ MODULE Check_Ops ------------------------------
EXTENDS MachineJudge
AssessRecord(r) == [bad |-> JudgeStep(r), tags |-> TagsStep(r)]
=============================================================================
