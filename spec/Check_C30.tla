------------------------------ MODULE Check_C30 ------------------------------
(* Conversions with functions of whole axes, and requests to their nodes: everything is judged.                      *)
EXTENDS NodeJudge
RECURSIVE CallsIn(_)
CallsIn(e) == CASE e.t = "op" -> UNION {CallsIn(e.a[i]) : i \in DOMAIN e.a}
                [] e.t = "fn" -> (IF e.n \in TimeFns THEN {e} ELSE {}) \cup UNION {CallsIn(e.a[i]) : i \in DOMAIN e.a}
                [] OTHER -> {}
NameTag == [monthtoyear_noleap |-> "year", monthtoyear_noleap_time |-> "year_time", monthtoyear_noleap_timebnds |-> "year_bounds", oclim |-> "climate", oclim_time |-> "climate_time",
            oclim_timebnds |-> "climate_bounds", yeartomonth_data |-> "spread", yeartomonth_data3D |-> "spread_levels", yeartomonth_time |-> "spread_time", bounds |-> "cells"]
TagsCall(e, env) ==
  LET A == Eval(e.a[1], env) n == IF A.err = "" /\ A.dims # <<>> THEN A.shape[1] ELSE 0
      V == Eval(e, env)
      monthly == e.n \in {"monthtoyear_noleap", "oclim"}
      loc == IntKw(e, "location", 1)
      faces == KwVal(e, "idata")
      F == IF faces = <<>> THEN A ELSE Eval(faces[1], env)
  IN IF A.err # "" THEN {} ELSE IF V.err = "unmodelled" THEN Tag(e.n = "monthtoyear_noleap", "no_year")
     ELSE IF V.err # "" THEN Tag(V.err = "dims" /\ monthly, "rank") \cup Tag(V.err = "short", "short_climate") \cup Tag(V.err = "faces", "faces_wrong")
     ELSE {NameTag[e.n]} \cup Tag(e.n = "monthtoyear_noleap" /\ n % 12 # 0, "incomplete_year") \cup Tag(e.n = "oclim" /\ n < 12, "few_months")
          \cup Tag(monthly /\ Missing \in SetOf(V.c) /\ \E k \in DOMAIN V.c : V.c[k] # Missing, "month_missing")
          \cup Tag(monthly /\ Len(A.dims) = 4, "levels") \cup Tag(A.pos # "" /\ e.n \notin {"time"}, "directed") \cup Tag(A.dt = "i", "integers")
          \cup Tag(e.n \in {"yeartomonth_time"} /\ Zero \in SetOf(A.c), "zero_year") \cup Tag(e.n \in {"yeartomonth_data", "yeartomonth_data3D"} /\ A.dims # V.dims, "spread_transposed")
          \cup Tag(KwVal(e, "bdim") # <<>>, "bounds_dimension")
          \cup (IF e.n # "bounds" THEN {} ELSE {CASE loc = 0 -> "cells_begin" [] loc = 1 -> "cells_middle" [] OTHER -> "cells_end"}
                  \cup Tag(faces = <<>> /\ IntKw(e, "endpoints", 1) = 0, "ends_cut") \cup Tag(faces # <<>> /\ F.err = "" /\ Steps(F) = n + 1, "faces_all") \cup Tag(faces # <<>> /\ F.err = "" /\ Steps(F) = n - 1, "faces_inner"))
          \cup Tag(e.a[1].t # "var", "nested")
TagsTime(r, O) ==
  LET made == IF O.planned /\ r.obs.err = "" /\ O.bad = {} THEN UNION {O.names[i] : i \in O.files} ELSE {}
      env == TLCEval(Env(r.run))
      defs == {n \in {r.run.vars[i].n : i \in DOMAIN r.run.vars} : VarOf(r.run, n).kind = "def"}
      calls == UNION {CallsIn(VarOf(r.run, n).ast) : n \in defs}
      done == UNION {CallsIn(VarOf(r.run, n).ast) : n \in made \cap defs}
  IN UNION {TagsCall(e, env) : e \in done} \cup (UNION {TagsCall(e, env) : e \in calls} \cap {"rank", "short_climate", "faces_wrong", "no_year"})
     \cup Tag(done # {} /\ \E n \in made : O.free # {}, "time_free")
     \cup Tag(done # {} /\ \E k \in DOMAIN r.run.chunks : r.run.chunks[k][1] \in {"time", "time_o"}, "time_chunked") \cup Tag(done # {} /\ \E k \in DOMAIN r.run.chunks : r.run.chunks[k][1] \notin {"time", "time_o"}, "space_chunked")
     \cup Tag(done # {} /\ \E i \in O.files : O.rev[i] # {}, "inverted")
AssessRecord(r) ==
  CASE r.kind = "run" -> (LET O == Outcome(r.run) IN [bad |-> JudgeRun(r, O), tags |-> TagsRun(r, O) \cup TagsTime(r, O)])
    [] OTHER -> AssessNode(r, {}, {}, NodeClauses \ {"empty_request_has_data"})
=============================================================================
