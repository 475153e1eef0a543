------------------------------ MODULE Check_C13 ------------------------------
(* kind "in": r.files <<[n, ok (can be read), dims <<[n, size, unlim]>>, vars <<[n, t, dims, at <<[k, v]>>]>>]>>,    *)
(* r.obs and r.again (the same files in another order): [err, dims, vars <<[n, t, dims, at, in <<..>>]>>];          *)
(* kind "out": an output specification, as one file per record of r.files (types "" and lengths -1: not given);    *)
(* kind "read": r.held <<[n, c]>>: what each file holds of a variable, r.got: what was read                        *)
EXTENDS TraceBase, Datasets
AsSet(s) == {s[i] : i \in DOMAIN s}
FileSet(r) == {[n |-> r.files[i].n, dims |-> AsSet(r.files[i].dims), vars |-> {[n |-> r.files[i].vars[j].n, t |-> r.files[i].vars[j].t, dims |-> r.files[i].vars[j].dims] : j \in DOMAIN r.files[i].vars}] : i \in DOMAIN r.files}
Readable(r) == \A i \in DOMAIN r.files : r.files[i].ok
ObsDims(o) == AsSet(o.dims)
ObsVars(o) == {[n |-> o.vars[i].n, t |-> o.vars[i].t, dims |-> o.vars[i].dims, in |-> AsSet(o.vars[i].in)] : i \in DOMAIN o.vars}
Attrs(r, n) == {AsSet(r.files[i].vars[j].at) : <<i, j>> \in {p \in (DOMAIN r.files) \X (1 .. 20) : p[2] \in DOMAIN r.files[p[1]].vars /\ r.files[p[1]].vars[p[2]].n = n}}
Once(o) == Cardinality(ObsDims(o)) = Len(o.dims) /\ Cardinality(ObsVars(o)) = Len(o.vars)
JudgeFiles(r, o) ==
  LET F == FileSet(r) IN
  IF ~Readable(r) THEN Clause(o.err # "", "unreadable_file_accepted")
  ELSE IF ~Consistent(F) THEN Clause(o.err # "", "contradicting_files_accepted")
  ELSE IF o.err # "" THEN {"consistent_files_refused"}
  ELSE LET D == Describe(F) IN
       Clause({[n |-> v.n, t |-> v.t, dims |-> v.dims] : v \in ObsVars(o)} = {[n |-> v.n, t |-> v.t, dims |-> v.dims] : v \in D.vars}, "variables")
       \cup Clause({<<v.n, v.in>> : v \in ObsVars(o)} = {<<v.n, v.in>> : v \in D.vars}, "files_of_variables")
       \cup Clause(ObsDims(o) = D.dims, "dimensions") \cup Clause(Once(o), "described_twice")
       \cup Clause(AsSet(o.names) = {f.n : f \in F}, "files")
       \cup Clause(\A i \in DOMAIN o.vars : AsSet(o.vars[i].at) \in Attrs(r, o.vars[i].n), "attributes")
       \cup Clause(\A i \in DOMAIN o.vars : AsSet(o.vars[i].dd) = {d \in D.dims : \E k \in DOMAIN o.vars[i].dims : o.vars[i].dims[k] = d.n}, "dimensions_of_variables")
JudgeRead(r) == Clause(r.err = "" /\ r.got \in {r.held[i].c : i \in DOMAIN r.held}, "data_of_no_file")
TagsFiles(r) ==
  LET F == FileSet(r) C == Readable(r) /\ Consistent(F) IN
  {r.kind} \cup Tag(C, "accepted") \cup Tag(~Readable(r), "unreadable") \cup Tag(Readable(r) /\ ~C, "contradicting")
  \cup Tag(C /\ Cardinality(F) > 2, "three_files") \cup Tag(C /\ \E v \in Describe(F).vars : Cardinality(v.in) > 1, "variable_in_several_files")
  \cup Tag(C /\ \E d \in Describe(F).dims : d.unlim, "unlimited") \cup Tag(C /\ \E f \in F : DimsIn(f) # f.dims, "unused_dimension")
  \cup Tag(C /\ Len(r.files) > Cardinality(F), "file_given_twice")
  \cup Tag(C /\ \E f \in F : \E d \in DimsIn(f) : d.size < 0 /\ d \notin Describe(F).dims, "length_known_elsewhere")
  \cup Tag(C /\ \E v \in Describe(F).vars : Cardinality(Attrs(r, v.n)) > 1, "attributes_differ")
  \cup Tag(Readable(r) /\ \E a, b \in F : \E v \in a.vars, w \in b.vars : v.n = w.n /\ v.t # w.t, "types_differ")
  \cup Tag(Readable(r) /\ \E a, b \in F : \E v \in a.vars, w \in b.vars : v.n = w.n /\ v.dims # w.dims /\ AsSet(v.dims) = AsSet(w.dims), "orders_differ")
  \cup Tag(Readable(r) /\ \E a, b \in F : \E d \in DimsIn(a), e \in DimsIn(b) : d.n = e.n /\ d.size # e.size /\ d.size >= 0 /\ e.size >= 0, "lengths_differ")
  \cup Tag(Readable(r) /\ \E a, b \in F : \E d \in DimsIn(a), e \in DimsIn(b) : d.n = e.n /\ d.size = e.size /\ d.unlim # e.unlim, "unlimited_differs")
AssessRecord(r) ==
  IF r.kind = "read" THEN [bad |-> JudgeRead(r), tags |-> Tag(Len(r.held) > 1, "read_of_several") \cup {"read"}]
  ELSE [bad |-> JudgeFiles(r, r.obs) \cup {c \o "_reordered" : c \in JudgeFiles(r, r.again)}
                \cup Clause((r.obs.err = "") = (r.again.err = ""), "order_of_files"), tags |-> TagsFiles(r)]
=============================================================================
