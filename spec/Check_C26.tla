------------------------------ MODULE Check_C26 ------------------------------
(* A record is a history of one process: steps "load" (classes of a module), "find"/"function" (a name looked up), "operator", *)
(* "list", "operators", "use" (a name used in the definition of a converted variable; got: the implementation that ran) *)
EXTENDS TraceBase, Registry
Builtin == <<"sqrt", "mean", "sum", "min", "max", "up", "down", "chunits", "limit", "rmunits", "chdims">>
Start == [i \in DOMAIN Builtin |-> [id |-> "builtin:" \o Builtin[i], key |-> Builtin[i], bases |-> <<Root>>]]
IsOp(k) == k \in DOMAIN Operators
JudgeLookup(cs, st) ==
  LET R == Resolve(cs, st.key) IN
  IF ~R.ok THEN Clause(st.err # "", IF R.id = "several" THEN "multiply_defined_name_accepted" ELSE "unknown_name_accepted")
  ELSE IF st.err # "" THEN {"unique_name_refused"} ELSE Clause(st.got = R.id, "wrong_implementation")
Seen(s) == {s[i] : i \in DOMAIN s}
JudgeStep(cs, st) ==
  CASE st.a = "load" -> {}
    [] st.a = "operator" \/ (st.a = "find" /\ IsOp(st.key)) ->
         IF ~ResolveOp(st.key, st.n) THEN Clause(st.err # "", "wrong_number_of_operands_accepted")
         ELSE IF st.err # "" THEN {"operator_refused"}
         ELSE Clause(st.got = st.key \o (IF st.n = 1 THEN "1" ELSE "2"), "wrong_operator")
    [] st.a = "find" /\ st.n > 0 -> Clause(st.err # "", "wrong_number_of_operands_accepted")
    [] st.a \in {"find", "function", "use"} -> JudgeLookup(cs, st)
    [] st.a = "list" -> Clause({k \in Names(cs) : Resolve(cs, k).ok} \subseteq Seen(st.names), "name_not_listed") \cup Clause(Seen(st.names) \subseteq Names(cs), "listed_name_unknown")
    [] st.a = "operators" -> Clause(Seen(st.names) = DOMAIN Operators, "operators_listed")
    [] OTHER -> {"unknown_record"}
TagsStep(cs, st) ==
  {st.a} \cup (IF st.a \in {"function", "use"} THEN LET R == Resolve(cs, st.key) IN
                  Tag(~R.ok, st.a \o "_" \o R.id) \cup Tag(R.ok, st.a \o "_found")
                  \cup Tag(R.ok /\ Known(cs, R.id) /\ Root \notin Seen(ClassOf(cs, R.id).bases), "inherited") \cup Tag(R.ok /\ Known(cs, R.id) /\ Len(ClassOf(cs, R.id).bases) > 1, "two_bases")
               ELSE {})
RECURSIVE Walk(_, _, _, _)
Walk(cs, steps, bad, tags) ==
  IF steps = <<>> THEN [bad |-> bad, tags |-> tags]
  ELSE LET st == steps[1] IN Walk(IF st.a = "load" THEN cs \o st.classes ELSE cs, Tail(steps), bad \cup JudgeStep(cs, st), tags \cup TagsStep(cs, st))
AssessRecord(r) == Walk(Start, r.steps, {}, {})
==============================================================================
