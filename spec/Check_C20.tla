------------------------------ MODULE Check_C20 ------------------------------
(* r.names <<[n, chars, tvar]>>: the declared names of files and the variable named for their dates; r.std: names of  *)
(* variables with standard_name "time"; r.taxis: those with axis T; r.warned: a file name was kept with a warning    *)
EXTENDS FlowJudge, Dates
NameRec(r, i) == r.names[CHOOSE k \in DOMAIN r.names : r.names[k].n = r.run.files[i].n]
NamedTime == {"time", "time1", "time2", "time3"}
FullRef(v) == v.u.has /\ v.u.ref # <<>> /\ v.u.n # ""
Identified(r, n) == LET v == VarOf(r.run, n) IN n \in NamedTime \/ (FullRef(v) /\ Len(v.dims) = 1) \/ n \in MSet(r.std) \/ n \in MSet(r.taxis)
Possible(r, O, n) == Identified(r, n) \/ LET v == VarOf(r.run, n) IN Len(v.dims) = 1 /\ O.out[n].err = "" /\ IsTimeRef(O.out[n].u)
(* first and last date of variable n in file i *)
Ends(r, O, i, n) == LET A == Reverse(O.out[n], O.rev[i]) IN IF A.err # "" \/ Len(A.dims) # 1 \/ A.c = <<>> THEN <<NoDate, NoDate>> ELSE <<DateAt(A.u, A.c[1]), DateAt(A.u, A.c[Len(A.c)])>>
Dated(r, O, i, n) == LET e == Ends(r, O, i, n) IN e[1].ok /\ e[2].ok
(* what becomes of a file: how \in "name" (one of names), "refused", "kept" (with a warning), "open" (not judged)         *)
Fate(r, O, i) ==
  LET c == NameRec(r, i).chars tv == NameRec(r, i).tvar
      all == Contents(r.run, r.run.files[i])
      vis == {n \in all : ~Hidden(VarOf(r.run, n))}
      sure == {n \in vis : Identified(r, n)}
      may == {n \in vis : Possible(r, O, n)}
      hid == {n \in all \ vis : Possible(r, O, n)}
      cands == IF tv # "" THEN {tv} ELSE IF "time" \in may THEN {"time"} ELSE may
      fate(h, N) == [how |-> h, names |-> N, cands |-> cands]
  IN IF ~HasTemplate(c) THEN fate("name", {Text(c)})
     ELSE IF tv = "" /\ hid # {} /\ sure = {} THEN fate("open", {})
     ELSE IF cands = {} THEN (IF WellFormed(c) THEN fate("kept", {Text(c)}) ELSE fate("open", {}))
     ELSE IF ~WellFormed(c) THEN fate(IF tv # "" \/ sure # {} THEN "refused" ELSE "open", {})
     ELSE IF ~Modelled(c) \/ \E n \in cands : ~Dated(r, O, i, n) THEN fate("open", {})
     ELSE fate(IF sure = {} /\ tv = "" THEN "maybe" ELSE "name", {LET e == Ends(r, O, i, n) IN NameFor(c, e[1], e[2]) : n \in cands})
(* the variable named for the dates has to be in the file *)
Misnamed(r) == \E i \in LiveFiles(r.run) : NameRec(r, i).tvar # "" /\ NameRec(r, i).tvar \notin Contents(r.run, r.run.files[i])
Judged(r, O) == O.unmodelled = {} /\ O.described /\ O.bad = {} /\ O.planned /\ O.badfile = {} /\ ~ChunkRefused(r, O)
Fates(r, O) == TLCEval([i \in O.files |-> Fate(r, O, i)])
JudgeNames(r, O, F) ==
  IF \E i \in O.files : F[i].how = "refused" THEN Clause(r.obs.err # "", "malformed_template_accepted") \cup Clause(FileNames(r) = {}, "malformed_template_written")
  ELSE IF \E i \in O.files : F[i].how = "open" THEN {}
  ELSE Clause(r.obs.err = "", "possible_run_refused")
       \cup (IF r.obs.err # "" THEN {} ELSE
             Clause(\A i \in O.files : F[i].how = "maybe" \/ F[i].names \cap FileNames(r) # {}, "date_range_in_name")
             \cup Clause(\A n \in FileNames(r) : \E i \in O.files : n \in F[i].names \/ (F[i].how = "maybe" /\ n = Text(NameRec(r, i).chars)), "unexpected_name")
             \cup Clause(Cardinality(FileNames(r)) = Cardinality(O.files), "number_of_files")
             \cup Clause((\E i \in O.files : F[i].how = "kept") => r.warned, "kept_without_warning")
             \cup Clause(r.warned => \E i \in O.files : F[i].how \in {"kept", "maybe"}, "warned_without_reason"))
TagsNames(r, O, F) ==
  {"judged"} \cup {F[i].how : i \in O.files} \cup
  (IF r.obs.err # "" THEN {} ELSE
   LET D == {i \in O.files : F[i].how = "name" /\ HasTemplate(NameRec(r, i).chars)}
       W(n) == VarOf(r.run, n)
       e(i) == Ends(r, O, i, CHOOSE n \in F[i].cands : TRUE)
       c1(i) == CHOOSE n \in F[i].cands : TRUE
   IN Tag(D # {}, "dated") \cup Tag(\E i \in D : NameRec(r, i).tvar # "", "explicit") \cup Tag(\E i \in D : NameRec(r, i).tvar # "" /\ Hidden(W(NameRec(r, i).tvar)), "explicit_hidden")
      \cup Tag(\E i \in D : NameRec(r, i).tvar # "" /\ \E n \in O.names[i] : n # NameRec(r, i).tvar /\ Identified(r, n), "explicit_among_others")
      \cup Tag(\E i \in D : NameRec(r, i).tvar = "" /\ F[i].cands = {"time"} /\ \E n \in O.names[i] : n # "time" /\ Identified(r, n), "time_among_others")
      \cup Tag(\E i \in D : NameRec(r, i).tvar = "" /\ \A n \in F[i].cands : n \notin NamedTime, "not_by_name")
      \cup Tag(\E i \in D : NameRec(r, i).tvar = "" /\ \A n \in F[i].cands : ~FullRef(W(n)), "not_by_units")
      \cup Tag(\E i \in D : NameRec(r, i).tvar = "" /\ \A n \in F[i].cands : n \notin NamedTime /\ ~FullRef(W(n)) /\ n \in MSet(r.std), "by_standard_name")
      \cup Tag(\E i \in D : NameRec(r, i).tvar = "" /\ \A n \in F[i].cands : n \notin NamedTime /\ ~FullRef(W(n)) /\ n \notin MSet(r.std), "by_axis")
      \cup Tag(\E i \in D : NameRec(r, i).tvar = "" /\ \A n \in F[i].cands : n \notin NamedTime /\ n \notin MSet(r.std) /\ n \notin MSet(r.taxis), "by_units")
      \cup Tag(\E i \in D : NameRec(r, i).tvar = "" /\ \A n \in F[i].cands : n \in NamedTime \ {"time"} /\ n \notin MSet(r.std) /\ n \notin MSet(r.taxis) /\ ~FullRef(W(n)), "by_other_name")
      \cup Tag(\E i \in D : Cardinality({k \in DOMAIN Pieces(NameRec(r, i).chars) : Pieces(NameRec(r, i).chars)[k].t = "range"}) > 1, "several_templates")
      \cup Tag(\E i \in D : e(i)[1].y < 1000, "early_years") \cup Tag(\E i \in D : e(i)[1].s # 0, "times_of_day") \cup Tag(\E i \in D : e(i)[1] = e(i)[2], "one_time")
      \cup Tag(\E i \in D : O.rev[i] \cap MSet(O.out[c1(i)].dims) # {} /\ e(i)[1] # e(i)[2], "reversed_times")
      \cup {"cal_" \o O.out[c1(i)].u.cal : i \in D} \cup {"per_day_" \o ToString(PerDay(O.out[c1(i)].u)) : i \in D}
      \cup Tag(\E i \in D : ~SameUnit(O.defs[c1(i)].u, O.out[c1(i)].u), "converted_times") \cup Tag(\E i \in D : W(c1(i)).kind = "data", "given_times")
      \cup Tag(Cardinality(D) > 1, "several_dated_files"))
AssessRecord(r) ==
  IF Misnamed(r) THEN [bad |-> Clause(r.obs.err # "", "unknown_time_variable_accepted") \cup Clause(FileNames(r) = {}, "unknown_time_variable_written"), tags |-> {"misnamed"}]
  ELSE LET O == Outcome(r.run) IN IF ~Judged(r, O) THEN [bad |-> {}, tags |-> {"unjudged"}]
       ELSE LET F == Fates(r, O) IN [bad |-> JudgeNames(r, O, F), tags |-> TagsNames(r, O, F)]
=============================================================================
