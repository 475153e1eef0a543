------------------------------ MODULE Check_C12 ------------------------------
(* kind "desc": only the description of the output was asked for: r.obs.files <<[n, vars, dims, fmt, gattrs]>>;    *)
(* kind "run": files were written.  r.hdr.files <<[n, fmt, gattrs]>> are the declared formats and attributes.      *)
EXTENDS Header
FileOwnedTwice(run) == \E i, j \in LiveFiles(run) : i # j /\ run.files[i].n = run.files[j].n
DimsNeeded(run, i) == DimsOf(run, Contents(run, run.files[i]))
JudgeDesc(r) ==
  IF ~Described(r.run) \/ FileOwnedTwice(r.run) THEN Clause(r.obs.err # "", "contradicting_files_accepted")
  ELSE IF r.obs.err # "" THEN {"possible_description_refused"}
  ELSE Clause(FileNames(r) = {r.run.files[i].n : i \in LiveFiles(r.run)}, "files")
       \cup UNION {LET f == FileOf(r, r.run.files[i].n) h == r.hdr.files[i] IN
                     Clause(SetOf(f.vars) = Contents(r.run, r.run.files[i]) /\ Len(f.vars) = Cardinality(SetOf(f.vars)), "variables_of_file")
                     \cup Clause(SetOf(f.dims) = DimsNeeded(r.run, i), "dimensions_of_file")
                     \cup Clause(f.fmt = FormatOf(h), "format_of_file") \cup Clause(f.gattrs = h.gattrs, "attributes_of_file")
                   : i \in {j \in LiveFiles(r.run) : r.run.files[j].n \in FileNames(r)}}
JudgeWritten(r, O) ==
  IF O.unmodelled # {} THEN {} ELSE IF FileOwnedTwice(r.run) THEN Clause(r.obs.err # "" /\ FileNames(r) = {}, "contradicting_files_accepted") ELSE
  (JudgeRun(r, O) \cap {"variables_of_file", "dimensions_of_file", "dimension_lengths", "unexpected_file", "file_not_written", "possible_run_refused", "unfinished_file_left"})
  \cup (IF O.bad # {} \/ ~O.planned THEN {} ELSE
        UNION {LET f == FileOf(r, r.run.files[i].n) h == r.hdr.files[i] IN
                 Clause(f.fmt = FormatName(FormatOf(h)), "format_of_file")
                 \cup Clause(KeysOf(f.gattrs) = KeysOf(h.gattrs) \cup {"creation_date"} /\ \A k \in KeysOf(h.gattrs) : ValueOf(f.gattrs, k) = ValueOf(h.gattrs, k), "attributes_of_file")
               : i \in {j \in O.files : r.run.files[j].n \in FileNames(r)}})
TagsDesc(r) ==
  IF ~Described(r.run) THEN {"names_nothing"} ELSE IF FileOwnedTwice(r.run) THEN {"owned_twice"} ELSE
  LET Live == LiveFiles(r.run)
      C(i) == Contents(r.run, r.run.files[i])
      B(i) == Base(r.run, r.run.files[i])
      M(i) == Meta(r.run, r.run.files[i])
      one(S) == UNION {Refs(r.run, n) : n \in S}
  IN {"described"} \cup Tag(Cardinality(Live) > 1, "several_files") \cup Tag(Cardinality(Live) > 2, "many_files")
     \cup Tag(\E i \in Live : M(i) \ B(i) # {}, "metadata_by_dimensions") \cup Tag(\E i \in Live : C(i) \ (B(i) \cup M(i)) # {}, "named_by_others")
     \cup Tag(\E i \in Live : C(i) \ (B(i) \cup M(i) \cup one(B(i) \cup M(i))) # {}, "named_transitively")
     \cup Tag(\E i \in Live : C(i) \ (B(i) \cup M(i) \cup one(B(i) \cup M(i) \cup one(B(i) \cup M(i)))) # {}, "named_over_three_steps")
     \cup Tag(\E i \in Live : \E n \in C(i) : n \in Owners(r.run) /\ n # r.run.files[i].owner, "owner_in_other_file")
     \cup Tag(\E i \in Live : \E n \in C(i) : VarOf(r.run, n).dims = <<>> /\ n # r.run.files[i].owner, "scalar_named")
     \cup Tag(\E k \in DOMAIN r.run.vars : Given(r.run.vars[k]) /\ r.run.vars[k].dims = <<>> /\ \E i \in Live : r.run.vars[k].n \notin C(i), "scalar_left_out")
     \cup Tag(\E i \in Live : \E n \in C(i) \ B(i) : ~(MSet(VarOf(r.run, n).dims) \subseteq DimsOf(r.run, B(i))), "brings_dimensions")
     \cup Tag(\E i \in Live : \E n \in C(i) : n \in Refs(r.run, n), "names_itself")
     \cup Tag(\E k \in DOMAIN r.run.vars : Given(r.run.vars[k]) /\ \A i \in Live : r.run.vars[k].n \notin C(i), "in_no_file")
     \cup Tag(\E i \in DOMAIN r.run.files : i \notin Live, "owner_without_definition")
     \cup Tag(\E i, j \in Live : FormatOf(r.hdr.files[i]) # FormatOf(r.hdr.files[j]), "formats_differ")
AssessRecord(r) ==
  IF r.kind = "desc" THEN [bad |-> JudgeDesc(r), tags |-> TagsDesc(r)]
  ELSE LET O == Outcome(r.run) IN [bad |-> JudgeWritten(r, O), tags |-> TagsRun(r, O) \cup {"w:" \o t : t \in TagsDesc(r)}]
=============================================================================
