------------------------------ MODULE Check_C21 ------------------------------
(* r.files <<[n, un, times, low (lower bounds, if any), cal]>> in the order given; r.obs: err, order (names), counts, *)
(* error (0 or 1); r.align: whether the times within files are looked at                                           *)
EXTENDS TraceBase, Series
TimesOf(f) == [i \in DOMAIN f.times |-> Instant(f.un, IF f.low # <<>> THEN f.low[i] ELSE f.times[i])]
SetOf(s) == {s[i] : i \in DOMAIN s}
Orders(n) == {p \in [1 .. n -> 1 .. n] : \A i, j \in 1 .. n : i # j => p[i] # p[j]}
Derive(r) ==
  LET T == TLCEval([i \in DOMAIN r.files |-> TimesOf(r.files[i])])
      n == Len(r.files) cal == r.files[1].un.cal
      known == \A i \in 1 .. n : \A k \in DOMAIN T[i] : IsNum(T[i][k])
      apart == \A i, j \in 1 .. n : i # j => Before(T[i], T[j]) \/ Before(T[j], T[i])
      rank(i) == 1 + Cardinality({j \in 1 .. n : Before(T[j], T[i])})
      order == [k \in 1 .. n |-> CHOOSE i \in 1 .. n : rank(i) = k]
      all == Concat([k \in 1 .. n |-> T[order[k]]])
  IN IF ~known \/ \E i \in 1 .. n : ~Increasing(T[i]) THEN [judged |-> FALSE]
     ELSE [judged |-> TRUE, apart |-> apart, short |-> \E i \in 1 .. n : Len(T[i]) < 3, order |-> IF apart THEN order ELSE <<>>,
           regular |-> apart /\ Regular(cal, all), broken |-> ~apart \/ Broken(cal, all),
           inside |-> \A i \in 1 .. n : Regular(cal, T[i]), brokenin |-> \E i \in 1 .. n : Broken(cal, T[i]), all |-> IF apart THEN all ELSE <<>>]
JudgeSeries(r, D) ==
  IF ~D.judged THEN {}
  ELSE IF r.obs.err # "" THEN Clause(D.short, "series_refused")
  ELSE Clause(D.regular => r.obs.error = 0, "regular_series_rejected")
       \cup (IF r.align \/ (D.inside /\ D.apart) THEN Clause(D.broken => r.obs.error # 0, "gap_accepted") ELSE {})
       \cup (IF r.obs.error # 0 /\ r.obs.order = <<>> THEN Clause(r.align /\ ~D.regular, "no_order")
             ELSE Clause(Len(r.obs.order) = Len(r.files) /\ \A n \in SetOf([i \in DOMAIN r.files |-> r.files[i].n]) : Cardinality({i \in DOMAIN r.obs.order : r.obs.order[i] = n}) = Cardinality({i \in DOMAIN r.files : r.files[i].n = n}), "files_lost")
                  \cup Clause(D.apart => r.obs.order = [k \in DOMAIN D.order |-> r.files[D.order[k]].n], "order")
                  \cup Clause(D.apart => r.obs.counts = [k \in DOMAIN D.order |-> Len(r.files[D.order[k]].times)], "counts")
                  \cup Clause(Len(r.obs.counts) = Len(r.obs.order), "counts"))
TagsSeries(r, D) ==
  IF ~D.judged THEN {"unjudged"} ELSE
  LET cal == r.files[1].un.cal n == Len(r.files) IN
  {"judged", "cal_" \o CalName(cal), "in_" \o r.files[1].un.n} \cup Tag(D.regular, "regular") \cup Tag(D.broken, "broken") \cup Tag(~D.regular /\ ~D.broken, "undecided") \cup Tag(D.short, "short")
  \cup Tag(~D.apart, "overlap") \cup Tag(D.inside /\ D.broken /\ D.apart, "gap_between") \cup Tag(D.brokenin, "gap_inside") \cup Tag(n = 1, "one_file") \cup Tag(n > 2, "many_files")
  \cup Tag(D.regular /\ n > 1 /\ Constant(D.all), "constant") \cup Tag(D.regular /\ n > 1 /\ ~Constant(D.all) /\ Monthly(cal, D.all), "monthly") \cup Tag(D.regular /\ n > 1 /\ ~Constant(D.all) /\ Yearly(cal, D.all), "yearly")
  \cup Tag(D.regular /\ n > 1 /\ Constant(D.all) /\ RLt(RSub(D.all[2], D.all[1]), One), "within_days")
  \cup Tag(D.regular /\ n > 1 /\ \E i \in 1 .. n : r.files[i].low # <<>>, "with_bounds")
  \cup Tag(D.regular /\ \E i, j \in 1 .. n : r.files[i].un # r.files[j].un, "different_units") \cup Tag(D.apart /\ D.order # [k \in 1 .. n |-> k], "out_of_order")
  \cup Tag(~r.align, "without_alignment") \cup Tag(D.regular /\ \E i, j \in 1 .. n : Len(r.files[i].times) # Len(r.files[j].times), "different_lengths")
  \cup Tag(r.obs.err # "", "refused")
AssessRecord(r) == LET D == Derive(r) IN [bad |-> JudgeSeries(r, D), tags |-> TagsSeries(r, D)]
=============================================================================
