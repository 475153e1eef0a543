------------------------------ MODULE Check_C04 ------------------------------
EXTENDS Judge
AssessRecord(r) == AssessShared(r, DataClauses \cup RefusalClauses, StepClauses)
=============================================================================
