------------------------------ MODULE Check_C17 ------------------------------
EXTENDS Judge
Clauses == DataClauses \cup RefusalClauses \cup {"range_warnings", "mean_warnings"}
(* which limits are tried: beyond, and exactly on them *)
LimitTags(r, O) ==
  LET W == {n \in UNION {O.names[i] : i \in O.files} : r.obs.err = "" /\ Exact(O, n)}
      cells(n) == {O.raw[n].c[k] : k \in DOMAIN O.raw[n].c}
      v(n) == VarOf(r.run, n)
  IN Tag(\E n \in W : v(n).vmin # <<>> /\ \E x \in cells(n) : IsNum(x) /\ RLt(x, v(n).vmin[1]), "range_low")
     \cup Tag(\E n \in W : v(n).vmax # <<>> /\ \E x \in cells(n) : IsNum(x) /\ RLt(v(n).vmax[1], x), "range_high")
     \cup Tag(\E n \in W : v(n).vmin = <<Zero>> \/ v(n).vmax = <<Zero>>, "range_zero")
     \cup Tag(\E n \in W : \E b \in {v(n).vmin, v(n).vmax} : b # <<>> /\ b[1] \in cells(n), "on_limit")
     \cup {IF x.k = "ok_min_mean_abs" THEN "mean_low" ELSE "mean_high" : x \in ObsMean(r)}
AssessRecord(r) == LET O == Outcome(r.run) IN [bad |-> JudgeRun(r, O) \cap Clauses, tags |-> TagsRun(r, O) \cup LimitTags(r, O)]
=============================================================================
