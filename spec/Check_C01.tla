------------------------------ MODULE Check_C01 ------------------------------
EXTENDS Judge
AssessRecord(r) == AssessShared(r, DataClauses \cup PlanClauses \cup RefusalClauses \cup ChunkClauses \cup FileClauses, StepClauses)
=============================================================================
