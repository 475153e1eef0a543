------------------------------ MODULE Check_C32 ------------------------------
(* Conversions with functions of the tiles of land, of regions and of ages, and requests to their nodes: everything is *)
(* judged.                                                                                                          *)
EXTENDS NodeJudge
RECURSIVE CallsIn(_)
CallsIn(e) == CASE e.t = "op" -> UNION {CallsIn(e.a[i]) : i \in DOMAIN e.a}
                [] e.t = "fn" -> (IF e.n \in SubgridFns THEN {e} ELSE {}) \cup UNION {CallsIn(e.a[i]) : i \in DOMAIN e.a}
                [] OTHER -> {}
TilesTags(e, a) ==
  LET lut == e.n = "CLM_landunit_to_CMIP6_Lut"
      used == IF lut THEN InUse(a[11], a[12]) ELSE InUse(a[13], a[15])
      Lon == IF lut THEN a[8] ELSE a[11] Lat == IF lut THEN a[9] ELSE a[12]
      kind == IF lut THEN UNION {OfKind(a[10], k) : k \in IF e.a[2].v = "all" THEN {0, 2, 3} ELSE {Kind(e.a[2].v)}} ELSE Plants(a[14], e.a[2].v)
      cells == {<<y, x>> : y \in 0 .. a[2].shape[1] - 1, x \in 0 .. a[3].shape[1] - 1}
      g(c) == Listed(a[4], a[5], c[1], c[2])
      of(c) == TilesAt(Lon, Lat, a[6].c[g(c)], a[7].c[g(c)])
      known == {c \in cells : g(c) # 0}
  IN {IF lut THEN e.a[2].v ELSE "plants_" \o e.a[2].v} \cup Tag(known # cells, "not_listed") \cup Tag(\E c \in known : of(c) \cap kind \cap used = {}, "no_tile") \cup Tag(\E c \in known : Cardinality(of(c) \cap kind \cap used) > 1, "several_tiles")
     \cup Tag(\E c \in known : (of(c) \cap kind) \ used # {}, "idle_tile") \cup Tag(\E c \in known : (of(c) \cap used) \ kind # {}, "other_kind")
     \cup Tag(~lut /\ \E c \in known : of(c) \cap kind \cap used # {} /\ TilesAt(a[8], a[9], a[6].c[g(c)], a[7].c[g(c)]) \cap OfKind(a[10], 0) = {}, "no_vegetation")
     \cup Tag(\E k \in DOMAIN Lon.c : \A h \in DOMAIN a[6].c : a[6].c[h] # Lon.c[k] \/ a[7].c[h] # Lat.c[k], "tile_elsewhere")
OneOf(s, x) == \E i \in DOMAIN s : s[i] = x
TagsCall(e, env) ==
  LET V == Eval(e, env)
      args == {e.a[i] : i \in {j \in DOMAIN e.a : e.a[j].t \notin {"str", "num"}}}
      A == Eval(e.a[1], env)
      a == [i \in 1 .. Len(e.a) - 2 |-> Eval(e.a[i + 2], env)]
  IN IF V.err = "unmodelled" THEN {}
     ELSE IF V.err # "" THEN {V.err} \cap {"rank", "dims", "sizes"}
     ELSE {e.n} \cup (IF e.n \in {"CLM_landunit_to_CMIP6_Lut", "CLM_pft_to_CMIP6_vegtype"} THEN TilesTags(e, a) \cup Tag(A.dims[1] # a[1].dims[1], "field_transposed") ELSE {})
          \cup Tag(Missing \in SetOf(V.c) /\ \E k \in DOMAIN V.c : V.c[k] # Missing, "some_missing") \cup Tag(\A k \in DOMAIN V.c : V.c[k] = Missing, "nothing")
          \cup Tag(e.n = "get_nonwoodyveg" /\ I2R(100) \in SetOf(V.c), "crops")
          \cup (IF e.n = "get_nonwoodyveg" THEN LET L == Eval(e.a[3], env) IN Tag(L.dims # Horizontal(A), "land_transposed") \cup Tag(\E k \in DOMAIN L.c : IsNum(L.c[k]) /\ RLt(One, L.c[k]), "no_land") ELSE {})
          \cup Tag(e.n = "ageofair" /\ \E k \in DOMAIN V.c : IsNum(V.c[k]) /\ 12 % V.c[k][2] # 0, "age_between") \cup Tag(e.n = "ageofair" /\ \E k \in DOMAIN V.c : IsNum(V.c[k]) /\ V.c[k][1] < 0, "age_ahead")
          \cup Tag(e.n = "ageofair" /\ A.dims # V.dims, "age_transposed")
          \cup Tag(V.pos # "", "directed") \cup Tag(\E x \in args : Eval(x, env).dt = "i", "integers") \cup Tag(\E x \in args : x.t # "var", "nested")
TagsSubgrid(r, O) ==
  LET made == IF O.planned /\ r.obs.err = "" /\ O.bad = {} THEN UNION {O.names[i] : i \in O.files} ELSE {}
      env == TLCEval(Env(r.run))
      defs == {n \in {r.run.vars[i].n : i \in DOMAIN r.run.vars} : VarOf(r.run, n).kind = "def"}
      calls == UNION {CallsIn(VarOf(r.run, n).ast) : n \in defs}
      done == UNION {CallsIn(VarOf(r.run, n).ast) : n \in made \cap defs}
  IN UNION {TagsCall(e, env) : e \in done} \cup (UNION {TagsCall(e, env) : e \in calls} \cap {"rank", "dims", "sizes"})
     \cup Tag(done # {} /\ \E k \in DOMAIN r.run.chunks : r.run.chunks[k][1] \in {"time", "time_o"}, "time_chunked") \cup Tag(done # {} /\ \E k \in DOMAIN r.run.chunks : r.run.chunks[k][1] \notin {"time", "time_o"}, "space_chunked")
     \cup Tag(done # {} /\ \E i \in O.files : O.rev[i] # {}, "inverted")
AssessRecord(r) ==
  CASE r.kind = "run" -> (LET O == Outcome(r.run) IN [bad |-> JudgeRun(r, O), tags |-> TagsRun(r, O) \cup TagsSubgrid(r, O)])
    [] OTHER -> AssessNode(r, {}, {}, NodeClauses \ {"empty_request_has_data"})
=============================================================================
