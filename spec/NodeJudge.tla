------------------------------ MODULE NodeJudge ------------------------------
(* Judgement of requests to the nodes of a data flow: r.run as for conversions, r.node "expr", "map" or "valid",     *)
(* r.ast, r.map <<[i, o]>>, r.v the output variable, r.q the request, r.obs [err, a].                            *)
EXTENDS Judge
NodeEnv(run) == [n \in {run.inp[i].n : i \in DOMAIN run.inp} |-> InpArr(run.inp[CHOOSE i \in DOMAIN run.inp : run.inp[i].n = n])]
NodeMap(m) == [o \in {m[i].o : i \in DOMAIN m} |-> m[CHOOSE i \in DOMAIN m : m[i].o = o].i]
NodeValue(r) ==
  LET A == Eval(r.ast, NodeEnv(r.run)) o2i == NodeMap(r.map) IN
  CASE r.node = "expr" -> A
    [] r.node = "map" -> Rename(A, [i \in DOMAIN A.dims |-> ToOut(o2i, A.dims[i])])
    [] r.node = "valid" -> LET v == VarOf(r.run, r.v) IN MaskRange(ToDeclared(v, A, o2i), v.vmin, v.vmax)
(* an empty request is one for the metadata alone *)
JudgeEmpty(A, o) ==
  Clause(o.a.dims = A.dims, "empty_request_dimensions") \cup Clause(AgreeUnit(A.u, UnitObs(o.a.u)), "empty_request_units")
  \cup Clause(o.a.pos = A.pos, "empty_request_positive") \cup Clause(\A i \in DOMAIN o.a.shape : o.a.shape[i] = 0, "empty_request_has_data")
JudgeNode(r) ==
  LET A == NodeValue(r)
      P == IF r.q.t = "none" THEN A ELSE Pick(A, r.q)
      o == r.obs
  IN IF A.err = "unmodelled" THEN {}
     \* what has no value can still have metadata
     ELSE IF A.err # "" THEN (IF r.q.t = "none" THEN {} ELSE Clause(o.err # "", "request_without_value_answered"))
     ELSE IF P.err # "" THEN Clause(o.err # "", "impossible_request_answered")
     ELSE IF o.err # "" THEN {"possible_request_refused"}
     ELSE IF r.q.t = "none" THEN JudgeEmpty(A, o)
     ELSE LET G == ArrObs(o.a) IN
          Clause(P.dims = G.dims, "part_dimensions") \cup Clause(P.dims # G.dims \/ P.shape = G.shape, "part_shape")
          \cup Clause(AgreeUnit(P.u, G.u), "part_units") \cup Clause(P.pos = G.pos, "part_positive")
          \cup (IF SameShape(P, G) THEN Clause(MissOK(P, G), "part_missing")
                     \cup Clause(\A k \in DOMAIN P.c : P.c[k] = Missing \/ G.c[k] = Missing \/ CellAgrees(P.c[k], G.c[k], r.loose \/ (r.node = "valid" /\ VarOf(r.run, r.v).ot = "f4")), "part_values") ELSE {})
NodeOps(e) == {"node:" \o x : x \in OpsOf(e)}
TagsNode(r) == LET A == NodeValue(r) IN {"request_" \o r.q.t, "node_" \o r.node} \cup NodeOps(r.ast) \cup Tag(A.err # "", "node_without_value")
                  \cup Tag(A.err = "" /\ A.pos # "", "node_directed") \cup Tag(A.err = "" /\ IsTimeRef(A.u), "node_time")
                  \cup Tag(\E i \in DOMAIN r.q.x : r.q.t = "dict" /\ r.q.x[i].e.k = "i", "request_integer")
AssessNode(r, runClauses, stepClauses, nodeClauses) ==
  IF r.kind = "node" THEN [bad |-> JudgeNode(r) \cap nodeClauses, tags |-> TagsNode(r)] ELSE AssessShared(r, runClauses, stepClauses)
NodeClauses == {"empty_request_dimensions", "empty_request_units", "empty_request_positive", "empty_request_has_data", "request_without_value_answered",
                "impossible_request_answered", "possible_request_refused", "part_dimensions", "part_shape", "part_units", "part_positive", "part_missing", "part_values"}
=============================================================================
