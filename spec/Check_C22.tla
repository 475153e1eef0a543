------------------------------ MODULE Check_C22 ------------------------------
(* Records: the definition file (lines), files of global attributes, tables, names asked for, p (experiment, output      *)
(* directory, version, numbers in texts), and what was generated: out <<[name, entries]>>, missing, unknown (names)     *)
EXTENDS TraceBase, MipSpec
FA(pairs) == FnOf(pairs)
AssessRecord(r) ==
  LET defs == TLCEval(Definitions(r.lines))
      g == TLCEval(GlobalsOf(r.globals, 1, <<>>))
      want == TLCEval(Generate(Start0, defs, g, r.tables, r.user, r.p))
      names == {r.out[i].name : i \in DOMAIN r.out}
      Es(i) == r.out[i].entries
      files == TLCEval(Files(want.specs, r.test))
      ExpFile(i) == files[r.out[i].name]
      known == {i \in DOMAIN r.out : r.out[i].name \in DOMAIN files}
      both == UNION {{<<i, j>> : j \in {k \in DOMAIN Es(i) : Es(i)[k].n \in DOMAIN ExpFile(i)}} : i \in known}
      O(x) == Es(x[1])[x[2]]
      W(x) == ExpFile(x[1])[O(x).n]
      Vars == {x \in both : W(x).kind = "variable"}
      Axes == {x \in both : W(x).kind = "axis"}
      All(S, C(_)) == \A x \in S : C(x)
      Own(x) == Without(FA(O(x).fat), {"tracking_id"})
      OwnW(x) == Without(W(x).file.at, {"tracking_id"})
      RequestedN(n) == \E i \in DOMAIN r.tables : \E j \in DOMAIN r.tables[i].vars : r.tables[i].vars[j].n = n
      missing == CountOf(r.missing)
  IN [bad |-> IF r.err # "" THEN {"no_specification"} ELSE
        Clause(\A f \in DOMAIN files : f \in names \/ (r.test /\ NeedNot(files[f])), "specification_lost") \cup Clause(names \subseteq DOMAIN files, "specification_added")
        \cup Clause(\A i \in known : DOMAIN ExpFile(i) \subseteq {Es(i)[k].n : k \in DOMAIN Es(i)}, "entry_lost")
        \cup Clause(\A i \in known : {Es(i)[k].n : k \in DOMAIN Es(i)} \subseteq DOMAIN ExpFile(i), "entry_added")
        \cup Clause(\A x \in Vars : O(x).def = W(x).def, "definition") \cup Clause(\A x \in both : O(x).dims = W(x).dims, "dimensions")
        \cup Clause(\A x \in both : O(x).dt = W(x).dt, "datatype") \cup Clause(\A x \in Vars : O(x).glob = W(x).glob, "input_files")
        \cup Clause(\A x \in Vars : NonBlank(FA(O(x).at)) = NonBlank(W(x).at), "attributes")
        \cup Clause(\A x \in Vars : O(x).file, "no_file") \cup Clause(\A x \in Vars : O(x).fname = W(x).file.name, "file_name")
        \cup Clause(\A x \in Vars : O(x).format = W(x).file.format /\ O(x).compression = W(x).file.compression /\ O(x).shuffle = W(x).file.shuffle, "file_format")
        \cup Clause(\A x \in Vars : Own(x) = OwnW(x), "file_metadata")
        \cup Clause(\A x \in Axes : W(x).settled => O(x).def = W(x).def, "axis_definition") \cup Clause(\A x \in Axes : FA(O(x).at) = W(x).at, "axis_attributes")
        \cup Clause(\A n \in DOMAIN want.missing : n \in DOMAIN missing /\ missing[n] >= want.missing[n], "missing_not_reported")
        \cup Clause(\A n \in DOMAIN missing : n \in DOMAIN want.missing /\ missing[n] <= want.missing[n], "reported_not_missing")
        \cup Clause(NotInTables(r.tables, r.user) \subseteq Range(r.unknown), "unknown_not_reported")
        \cup Clause(\A n \in Range(r.unknown) : \E i \in DOMAIN r.tables : \A j \in DOMAIN r.tables[i].vars : r.tables[i].vars[j].n # n, "reported_not_unknown"),
      tags |-> Tag(r.test, "test_output") \cup Tag(want.missing # EmptyBag, "missing") \cup Tag(Cardinality(DOMAIN want.specs) > 1, "several_tables") \cup Tag(r.user # <<>>, "user_list")
               \cup Tag(NotInTables(r.tables, r.user) # {}, "unknown")
               \cup Tag(\E n \in DOMAIN want.missing : \E s \in DOMAIN defs : n \in DOMAIN defs[s], "defined_in_another_table")
               \cup Tag(\E s, q \in DOMAIN defs : s # q /\ DOMAIN defs[s] \cap DOMAIN defs[q] # {}, "name_in_two_sections")
               \cup Tag(\E s \in DOMAIN defs : \E n \in DOMAIN defs[s] : LET xs == Sayings(r.lines) IN Cardinality(DefiningLines(xs, s, n)) > 1, "defined_twice")
               \cup Tag(\E x \in Vars : W(x).glob # "", "input_files") \cup Tag(\E x \in Vars : W(x).dims = <<>>, "scalar") \cup Tag(\E x \in Axes : W(x).def.k = "list", "requested_axis")
               \cup Tag(\E x \in Axes : W(x).def.k = "text", "axis_from_section") \cup Tag(\E x \in Axes : W(x).def.k = "none", "axis_undefined") \cup Tag(\E x \in Axes : ~W(x).settled, "similar_realm_only")
               \cup Tag(\E i \in DOMAIN r.tables : Cardinality(Sections(defs, r.tables[i])) > 1, "realms") \cup Tag(\E i \in DOMAIN r.tables : Sections(defs, r.tables[i]) # {} /\ r.tables[i].similar # <<>> /\ Len(r.tables[i].similar) > 1, "similar_realms")
               \cup Tag(\E x \in Vars : \E k \in DOMAIN g : g[k] = Blanked /\ k \in DOMAIN W(x).file.at /\ W(x).file.at[k] # "", "filled") \cup Tag(\E x \in Vars : External(CHOOSE v \in Range(r.tables[1].vars) : TRUE) # <<>>, "external")
               \cup Tag("branch_method" \in DOMAIN g /\ r.p.noparent, "no_parent") \cup Tag("branch_method" \in DOMAIN g /\ ~r.p.noparent, "parent")
               \cup Tag("grid" \in DOMAIN g /\ r.p.grids # <<>>, "grids") \cup Tag("further_info_url" \in DOMAIN g, "info") \cup Tag(r.p.indices # <<>>, "variant") \cup Tag(Len(r.globals) > 1, "several_attribute_files")
               \cup Tag(\E i \in DOMAIN r.lines : LET ln == Strip(r.lines[i]) IN ln # <<>> /\ ln[1] # "#" /\ Hashes(ln) # {} /\ Header(SubSeq(ln, UpTo(ln, "#", 1), Len(ln))).is, "header_in_comment")]
==============================================================================
