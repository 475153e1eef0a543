------------------------------ MODULE Check_C06 ------------------------------
EXTENDS Judge
AssessRecord(r) == AssessShared(r, DataClauses \cup RefusalClauses, StepClauses)
=============================================================================
