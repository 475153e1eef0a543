------------------------------ MODULE Parallel ------------------------------
(* Ranks that share the work of a run: the manager (rank 1) divides the files among all ranks by weight, all wait   *)
(* for each other, each writes its files, all wait again.                                                         *)
EXTENDS Integers, Sequences, FiniteSets
(* the heaviest file first (listed order among equals) goes to the rank with the least weight so far *)
RECURSIVE InsertFile(_, _, _)
InsertFile(s, f, w) == IF s = <<>> THEN <<f>> ELSE IF w[s[1]] >= w[f] THEN <<s[1]>> \o InsertFile(Tail(s), f, w) ELSE <<f>> \o s
RECURSIVE ByWeight(_, _)
ByWeight(n, w) == IF n = 0 THEN <<>> ELSE InsertFile(ByWeight(n - 1, w), n, w)
Lightest(load) == CHOOSE k \in DOMAIN load : \A j \in DOMAIN load : load[k] < load[j] \/ (load[k] = load[j] /\ k <= j)
RECURSIVE Greedy(_, _, _, _)
Greedy(s, w, load, part) ==
  IF s = <<>> THEN part
  ELSE LET k == Lightest(load) IN Greedy(Tail(s), w, [load EXCEPT ![k] = @ + w[s[1]]], [part EXCEPT ![k] = Append(@, s[1])])
Divide(nranks, w) == Greedy(ByWeight(Len(w), w), w, [k \in 1 .. nranks |-> 0], [k \in 1 .. nranks |-> <<>>])
Range2(s) == {s[i] : i \in DOMAIN s}
(* --- a recorded run, as a sequence of events <<rank, what, file>> of nranks ranks:                              *)
(*     "write" f (a file appears or is replaced), "sync" (arrives), "end" (finishes), "error"                     *)
Start0(n) == [writer |-> {}, twice |-> {}, arrived |-> [k \in 1 .. n |-> 0], ended |-> {}, failed |-> {}]
Follow(st, e) ==
  CASE e.what = "write" -> [st EXCEPT !.writer = @ \cup {<<e.file, e.rank>>}, !.twice = IF \E p \in st.writer : p[1] = e.file THEN @ \cup {e.file} ELSE @]
    [] e.what = "sync" -> [st EXCEPT !.arrived[e.rank] = @ + 1]
    [] e.what = "end" -> [st EXCEPT !.ended = @ \cup {e.rank}]
    [] OTHER -> [st EXCEPT !.failed = @ \cup {e.rank}]
RECURSIVE FollowAll(_, _)
FollowAll(st, s) == IF s = <<>> THEN st ELSE FollowAll(Follow(st, s[1]), Tail(s))
=============================================================================
