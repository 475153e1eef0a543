------------------------------ MODULE Check_C05 ------------------------------
EXTENDS Judge
AssessRecord(r) == AssessShared(r, DataClauses \cup RefusalClauses, StepClauses)
=============================================================================
