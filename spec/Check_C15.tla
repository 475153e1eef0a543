------------------------------ MODULE Check_C15 ------------------------------
(* One run (or one run and another one with the same data flow after it failed) with a fault at one point:         *)
(* r.final: names of output files; r.old <<[n, ino, h]>>: earlier files; r.events: operations on the directory;      *)
(* r.ref <<[n, h]>>: the complete files; r.after <<[n, h]>>: what is there afterwards; r.end: "ok", "error", "killed"  *)
EXTENDS TraceBase, FileSys
SetOf(s) == {s[i] : i \in DOMAIN s}
Hash(s, n) == {s[i].h : i \in {j \in DOMAIN s : s[j].n = n}}
JudgeCrash(r) ==
  LET F == SetOf(r.final)
      old == {r.old[i].n : i \in DOMAIN r.old}
      b0 == {<<r.old[i].n, r.old[i].ino>> : i \in DOMAIN r.old}
      w == Watch(r.events, b0, {}, old, F, {})
      there == {r.after[i].n : i \in DOMAIN r.after}
      wanted == {r.ref[i].n : i \in DOMAIN r.ref}
  IN w.bad
     \cup Clause(\A n \in there \cap F : Hash(r.after, n) \subseteq Hash(r.ref, n) \cup Hash(r.old, n), "incomplete_file")
     \cup Clause(old \subseteq there, "earlier_file_missing")
     \cup Clause(r.end # "ok" \/ \A n \in wanted : Hash(r.after, n) = Hash(r.ref, n), "file_missing_after_success")
     \cup Clause(r.end # "ok" \/ there \subseteq wanted \cup old, "temporary_file_left")
     \cup Clause(Names(w.bound) = there, "unseen_operation")
TagsCrash(r) ==
  {r.end, r.mode} \cup Tag(r.old # <<>>, "earlier_file") \cup Tag(Len(r.ref) > 1, "several_files") \cup Tag(\E i \in DOMAIN r.after : r.after[i].n \notin SetOf(r.final), "temporary_left_by_fault")
  \cup Tag(r.end # "ok" /\ \E i \in DOMAIN r.after : r.after[i].n \in SetOf(r.final) /\ r.after[i].h \in Hash(r.ref, r.after[i].n), "complete_file_kept")
  \cup Tag(r.end # "ok" /\ \E i \in DOMAIN r.after : r.after[i].n \in SetOf(r.final) /\ r.after[i].h \in Hash(r.old, r.after[i].n), "earlier_file_kept")
  \cup Tag(\E i \in DOMAIN r.events : r.events[i].op = "rename" /\ r.events[i].b \in {r.old[j].n : j \in DOMAIN r.old}, "earlier_file_replaced")
  \cup Tag(r.chunked, "chunked") \cup Tag(r.mode = "retry" /\ r.end = "ok", "retry_succeeded") \cup Tag(r.end # "killed" /\ Len(r.events) > 20, "many_operations")
AssessRecord(r) == [bad |-> JudgeCrash(r), tags |-> TagsCrash(r)]
=============================================================================
