------------------------------ MODULE Check_C16 ------------------------------
EXTENDS Judge
AssessRecord(r) == AssessShared(r, DataClauses \cup RefusalClauses, {})
=============================================================================
