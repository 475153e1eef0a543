------------------------------ MODULE Check_C09 ------------------------------
EXTENDS NodeJudge
(* functions that go along whole axes may give data when only metadata is asked for *)
RECURSIVE AlongAxes(_)
AlongAxes(e) == CASE e.t = "op" -> \E i \in DOMAIN e.a : AlongAxes(e.a[i])
                  [] e.t = "fn" -> e.n \in TimeFns \/ \E i \in DOMAIN e.a : AlongAxes(e.a[i])
                  [] OTHER -> FALSE
Clauses(r) == IF r.kind = "node" /\ AlongAxes(r.ast) THEN NodeClauses \ {"empty_request_has_data"} ELSE NodeClauses
AssessRecord(r) == AssessNode(r, DataClauses, {"result_dimensions", "result_shape", "result_units", "result_positive"}, Clauses(r))
=============================================================================
