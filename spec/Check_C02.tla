------------------------------ MODULE Check_C02 ------------------------------
EXTENDS Judge
AssessRecord(r) == AssessShared(r, DataClauses \cup PlanClauses \cup RefusalClauses \cup ChunkClauses \cup FileClauses, StepClauses)
=============================================================================
