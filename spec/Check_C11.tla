------------------------------ MODULE Check_C11 ------------------------------
EXTENDS Judge
(* kind "map": a data flow that was only built *)
JudgeMap(r, O) ==
  IF O.unmodelled # {} \/ ~O.described \/ O.bad # {} THEN {}
  ELSE IF ~O.mapok THEN Clause(r.obs.err # "", "impossible_map_accepted")
  ELSE IF r.obs.err # "" THEN {"possible_map_refused"}
  ELSE Clause(ObsMap(r) = MapPairs(O), "dimension_map") \cup Clause(Injective(O.o2i), "map_not_one_to_one")
TagsMap(r, O) == Tag(~O.mapok, "map_refused") \cup Tag(O.mapok, "map_found") \cup Tag(O.mapok /\ Cardinality(DOMAIN O.o2i) > 2, "map_of_three")
                 \cup Tag(O.mapok /\ \E d \in DOMAIN O.o2i : \E e \in DOMAIN O.o2i : d # e /\ O.o2i[d] = e, "map_crosses_names")
AssessRecord(r) ==
  CASE r.kind = "map" -> LET O == Outcome(r.run) IN [bad |-> JudgeMap(r, O), tags |-> TagsMap(r, O)]
    [] OTHER -> AssessShared(r, PlanClauses \cup RefusalClauses \cup {"dimension_order", "shape"}, {})
=============================================================================
