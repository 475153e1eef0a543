------------------------------ MODULE Check_C14 ------------------------------
(* r.n ranks, r.events of the parallel run, r.serial and r.parallel: <<[n, h]>> the files of both runs with what is  *)
(* in them, r.tmp: files left under temporary names, r.stuck: ranks that could not go on                          *)
EXTENDS TraceBase, Parallel
SerialFiles(r) == {r.serial[i].n : i \in DOMAIN r.serial}
SameContents(r) == {<<r.serial[i].n, r.serial[i].h>> : i \in DOMAIN r.serial} = {<<r.parallel[i].n, r.parallel[i].h>> : i \in DOMAIN r.parallel}
JudgeParallel(r) ==
  LET st == FollowAll(Start0(r.n), r.events) IN
  IF r.serialerr # "" THEN {}
  ELSE Clause(st.failed = {}, "rank_failed") \cup Clause(st.ended = 1 .. r.n /\ ~r.stuck, "rank_did_not_end")
       \cup Clause(st.twice = {}, "written_twice")
       \cup Clause(~r.traced \/ {p[1] : p \in st.writer} = SerialFiles(r), "written_files")
       \cup Clause({r.parallel[i].n : i \in DOMAIN r.parallel} = SerialFiles(r), "files")
       \cup Clause({r.parallel[i].n : i \in DOMAIN r.parallel} # SerialFiles(r) \/ SameContents(r), "contents")
       \cup Clause(r.tmp = <<>>, "temporary_file_left")
       \cup Clause(\A j, k \in 1 .. r.n : st.arrived[j] = st.arrived[k], "synchronisation")
TagsParallel(r) ==
  IF r.serialerr # "" THEN {"refused"} ELSE
  LET st == FollowAll(Start0(r.n), r.events) f == Cardinality(SerialFiles(r)) W == {p[2] : p \in st.writer} IN
  {"parallel", r.how, "ranks_" \o ToString(r.n)} \cup Tag(f = r.n, "as_many_files") \cup Tag(f > r.n, "more_files") \cup Tag(f < r.n, "fewer_files") \cup Tag(f = 0, "no_files")
  \cup Tag(r.traced /\ Cardinality(W) < r.n, "idle_rank") \cup Tag(r.traced /\ Cardinality(W) > 1, "several_writers")
  \cup Tag(r.traced /\ \E i, j, k \in DOMAIN r.events : i < j /\ j < k /\ r.events[i].what = "write" /\ r.events[j].what = "write" /\ r.events[k].what = "write"
                          /\ r.events[i].rank = r.events[k].rank /\ r.events[i].rank # r.events[j].rank, "interleaved")
AssessRecord(r) == [bad |-> JudgeParallel(r), tags |-> TagsParallel(r)]
=============================================================================
