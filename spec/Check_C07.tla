------------------------------ MODULE Check_C07 ------------------------------
EXTENDS NodeJudge
AssessRecord(r) == AssessNode(r, DataClauses, {}, {"part_values", "part_missing", "part_units", "part_positive", "empty_request_units", "empty_request_positive"})
=============================================================================
