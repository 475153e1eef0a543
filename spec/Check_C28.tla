------------------------------ MODULE Check_C28 ------------------------------
EXTENDS Judge
AssessRecord(r) == AssessShared(r, DataClauses \cup RefusalClauses, StepClauses)
=============================================================================
