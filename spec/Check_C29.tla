------------------------------ MODULE Check_C29 ------------------------------
(* Records: src "lines" (lines: characters) or "entries" ([n, has, data, d]), want, err, and the listing: out <<[n, how, names]>>, total, junk (lines reported) *)
EXTENDS TraceBase, Listing
AssessRecord(r) ==
  LET defs == IF r.src = "lines" THEN FileDefs(r.lines, 1, <<>>) ELSE EntryDefs(r.entries)
      asked == Asked(defs, r.want)
      Of(n) == {i \in DOMAIN r.out : r.out[i].n = n}
      L(n) == Listed(defs, n)
      ObsNames(i) == {r.out[i].names[k] : k \in DOMAIN r.out[i].names}
      \* what the grammar leaves open is not judged
      Open(n) == n \in DOMAIN defs /\ LET x == Lex(defs[n], 1, <<>>) IN x.ok /\ Unsettled(x.toks)
      Given(n) == r.src = "entries" /\ \E i \in DOMAIN r.entries : r.entries[i].n = n /\ r.entries[i].data
  IN [bad |-> IF r.err # "" THEN {"no_listing"} ELSE
        IF \E n \in asked : Open(n) THEN {} ELSE
        Clause({r.out[i].n : i \in DOMAIN r.out} = asked, "variables_listed")
        \cup Clause(\A n \in asked : \A i \in Of(n) : L(n).how = "undefined" <=> r.out[i].how = "undefined", "undefined_reported")
        \cup Clause(\A n \in asked : \A i \in Of(n) : L(n).names \subseteq ObsNames(i), "dependency_lost")
        \cup Clause(\A n \in asked : \A i \in Of(n) : ObsNames(i) \subseteq L(n).names, "dependency_added")
        \cup Clause(\A n \in asked : \A i \in Of(n) : r.out[i].how = L(n).how, "kind_of_entry")
        \cup Clause({r.total[i] : i \in DOMAIN r.total} = AllNames(defs, r.want), "complete_list")
        \cup Clause(r.src # "lines" \/ Cardinality(Junk(r.lines)) = r.junk, "lines_reported"),
      tags |-> {r.src, IF r.want = <<>> THEN "all" ELSE "asked"} \cup {"how_" \o L(n).how : n \in asked} \cup Tag(AllNames(defs, r.want) = {}, "nothing_needed")
               \cup Tag(\E n \in DOMAIN defs : ~Deps(defs[n]).ok, "unparsable") \cup Tag(\E n \in asked : Cardinality(L(n).names) > 2, "several")
               \cup Tag(\E n \in asked : "undefined" = L(n).how /\ Given(n), "data")
               \cup Tag(r.src = "lines" /\ Junk(r.lines) # {}, "junk") \cup Tag(r.src = "lines" /\ \E i \in DOMAIN r.lines : UpTo(r.lines[i], "#", 1) > 1, "comment")]
==============================================================================
