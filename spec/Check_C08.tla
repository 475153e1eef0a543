------------------------------ MODULE Check_C08 ------------------------------
EXTENDS Judge
AssessRecord(r) == AssessShared(r, DataClauses \cup {"declared_filler"}, StepClauses)
=============================================================================
