------------------------------ MODULE Check_C31 ------------------------------
(* Conversions with functions of ocean columns and pieces, and requests to their nodes: everything is judged.        *)
EXTENDS NodeJudge
RECURSIVE CallsIn(_)
CallsIn(e) == CASE e.t = "op" -> UNION {CallsIn(e.a[i]) : i \in DOMAIN e.a}
                [] e.t = "fn" -> (IF e.n \in ColumnFns THEN {e} ELSE {}) \cup UNION {CallsIn(e.a[i]) : i \in DOMAIN e.a}
                [] OTHER -> {}
OfOcean == {"POP_bottom_layer", "diff_axis1_ind0bczero_4d", "rsdoabsorb", "POP_surf_mean", "POP_3D_mean", "POP_bottom_layer_multadd", "POP_layer_sum_mult", "sftof"}
Leveling == {"diff_axis1_ind0bczero_4d", "rsdoabsorb"}
TagsCall(e, env) ==
  LET V == Eval(e, env)
      args == {e.a[i] : i \in {j \in DOMAIN e.a : e.a[j].t \notin {"str", "num"}}}
      A == Eval(e.a[1], env)
      Last == Eval(e.a[Len(e.a)], env)
  IN IF V.err = "unmodelled" THEN {}
     ELSE IF V.err # "" THEN {V.err} \cap {"rank", "dims", "sizes"}
     ELSE {e.n} \cup Tag(e.n \in OfOcean /\ Zero \in SetOf(A.c), "land") \cup Tag(e.n \in OfOcean /\ \A k \in DOMAIN A.c : A.c[k] = Zero, "no_ocean")
          \cup Tag(e.n \in OfOcean \ {"sftof", "POP_surf_mean"} /\ \E k \in DOMAIN A.c : A.c[k][1] = Last.shape[2], "full_column")
          \cup Tag(Missing \in SetOf(V.c) /\ \E k \in DOMAIN V.c : V.c[k] # Missing, "some_missing")
          \cup Tag(e.n \in OfOcean \ {"sftof"} /\ A.dims # Horizontal(Last), "depth_transposed")
          \cup Tag(e.n \in {"POP_surf_mean", "POP_3D_mean"} /\ Eval(e.a[Len(e.a) - 1], env).dims # Horizontal(Last), "area_transposed")
          \cup Tag(e.n \in Leveling /\ V.dims # Last.dims, "other_levels")
          \cup Tag(e.n = "get_soilpools" /\ \E x \in args : Eval(x, env).u.t = "u" /\ Len(Eval(x, env).dims) = 3 /\ Eval(x, env).u # A.u, "units_joined")
          \cup Tag(e.n = "burntFraction" /\ V.shape[1] > 12, "second_year")
          \cup Tag(V.pos # "", "directed") \cup Tag(\E x \in args : Eval(x, env).dt = "i", "integers") \cup Tag(\E x \in args : x.t # "var", "nested")
TagsColumns(r, O) ==
  LET made == IF O.planned /\ r.obs.err = "" /\ O.bad = {} THEN UNION {O.names[i] : i \in O.files} ELSE {}
      env == TLCEval(Env(r.run))
      defs == {n \in {r.run.vars[i].n : i \in DOMAIN r.run.vars} : VarOf(r.run, n).kind = "def"}
      calls == UNION {CallsIn(VarOf(r.run, n).ast) : n \in defs}
      done == UNION {CallsIn(VarOf(r.run, n).ast) : n \in made \cap defs}
  IN UNION {TagsCall(e, env) : e \in done} \cup (UNION {TagsCall(e, env) : e \in calls} \cap {"rank", "dims", "sizes"})
     \cup Tag(done # {} /\ \E k \in DOMAIN r.run.chunks : r.run.chunks[k][1] \in {"time", "time_o"}, "time_chunked") \cup Tag(done # {} /\ \E k \in DOMAIN r.run.chunks : r.run.chunks[k][1] \notin {"time", "time_o"}, "space_chunked")
     \cup Tag(done # {} /\ \E i \in O.files : O.rev[i] # {}, "inverted")
AssessRecord(r) ==
  CASE r.kind = "run" -> (LET O == Outcome(r.run) IN [bad |-> JudgeRun(r, O), tags |-> TagsRun(r, O) \cup TagsColumns(r, O)])
    [] OTHER -> AssessNode(r, {}, {}, NodeClauses \ {"empty_request_has_data"})
=============================================================================
