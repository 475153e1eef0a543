------------------------------ MODULE Check_C19 ------------------------------
EXTENDS Judge
AssessRecord(r) == AssessShared(r, DataClauses \cup PlanClauses \cup FileClauses \cup SkipClauses \cup RefusalClauses, {})
=============================================================================
