------------------------------ MODULE Check_C18 ------------------------------
EXTENDS Header
JudgeRecord(r) ==
  IF BadHeader(r) THEN Clause(r.obs.err # "" \/ ~Described(r.run), "undeclarable_header_accepted") \cup Clause(FileNames(r) = {}, "undeclarable_header_written")
  ELSE LET O == Outcome(r.run) IN
       IF O.unmodelled # {} THEN {}
       ELSE IF BadLevel(r) THEN Clause(r.obs.err # "" \/ O.files = {}, "bad_compression_accepted") \cup Clause(FileNames(r) = {}, "bad_compression_written")
       ELSE (JudgeRun(r, O) \cap {"units_attribute", "positive_attribute", "type", "dimension_lengths", "dimensions_of_file", "possible_run_refused", "file_not_written"})
            \cup (IF O.bad # {} \/ ~O.planned THEN {} ELSE UNION {JudgeHeader(r, O, i) : i \in {j \in O.files \ O.badfile : r.run.files[j].n \in FileNames(r)}})
TagsHeader(r) ==
  IF BadHeader(r) THEN {"bad_header"} ELSE
  LET O == Outcome(r.run)
      W == UNION {O.names[i] : i \in {j \in O.files : r.run.files[j].n \in FileNames(r)}}
      F == {HFile(r, r.run.files[i].n) : i \in {j \in O.files : r.run.files[j].n \in FileNames(r)}}
  IN TagsRun(r, O) \cup Tag(BadLevel(r), "bad_level") \cup (IF r.obs.err # "" \/ O.unmodelled # {} THEN {} ELSE
     {"fmt_" \o FormatOf(h) : h \in F} \cup {"type_" \o HVar(r, n).type : n \in W} \cup Tag(r.hdr.history, "history") \cup Tag(r.hdr.deflate # <<>>, "override")
     \cup {"level_" \o ToString(Level(r, h)) : h \in F} \cup Tag(\E h \in F : h.gattrs # <<>>, "global") \cup Tag(\E n \in W : HVar(r, n).fill # <<>>, "fill")
     \cup Tag(\E n \in W : "history" \in KeysOf(HVar(r, n).attrs), "own_history") \cup Tag(\E n \in W : InheritsCalendar(VarOf(r.run, n), O.defs[n]), "inherits_calendar")
     \cup Tag(\E n \in W : VarOf(r.run, n).u.has /\ VarOf(r.run, n).u.n = "", "inherits_units")
     \cup Tag(\E n \in W : VarOf(r.run, n).u.has /\ VarOf(r.run, n).u.n # "" /\ VarOf(r.run, n).u.ref = <<>> /\ IsTimeRef(O.defs[n].u), "inherits_reference")
     \cup Tag(\E n \in W : VarOf(r.run, n).u.has /\ VarOf(r.run, n).u.n = "" /\ VarOf(r.run, n).u.ref # <<>>, "inherits_time_units")
     \cup Tag(r.second, "second_execution"))
AssessRecord(r) == [bad |-> JudgeRecord(r), tags |-> TagsHeader(r)]
=============================================================================
