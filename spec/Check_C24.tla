------------------------------ MODULE Check_C24 ------------------------------
EXTENDS Judge
AssessRecord(r) == AssessShared(r, DataClauses \cup RefusalClauses, StepClauses)
=============================================================================
