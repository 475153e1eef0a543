---------------------------- MODULE MC_FileLayer ----------------------------
(* Files under construction next to one existing file: every program of at most N operations of the file access      *)
(* layer.  Ghost: for every variable and step of the unlimited dimension the row written last.                       *)
EXTENDS FileLayer
CONSTANTS N, Steps
Vals == {<<7, 1>>, <<0, 0>>}
VARIABLES F, ghost, n, trail
vars == <<F, ghost, n, trail>>
S == <<[n |-> "s", fmt |-> "NETCDF4", gattrs |-> <<[k |-> "history", v |-> "s:old", text |-> "old"], [k |-> "title", v |-> "s:t", text |-> "t"]>>,
        dims |-> <<[n |-> "time", len |-> 2, unl |-> FALSE], [n |-> "x", len |-> 2, unl |-> FALSE]>>,
        vars |-> <<[n |-> "time", type |-> "f8", dims |-> <<"time">>, attrs |-> <<[k |-> "units", v |-> "s:d"]>>, fill |-> <<>>, c |-> <<<<1, 1>>, <<2, 1>>>>],
                   [n |-> "a", type |-> "i4", dims |-> <<"time", "x">>, attrs |-> <<>>, fill |-> <<"i4:-9">>, c |-> <<<<3, 1>>, Missing, <<4, 1>>, <<5, 1>>>>]>>]>>
Rows == [1 .. 2 -> Vals]
Files == {"p", "q"}
Init == F = <<>> /\ ghost = <<>> /\ n = 0 /\ trail = <<>>
Do(o) == F' = TLCEval(Step(F, S, o)) /\ n' = n + 1 /\ trail' = Append(trail, o)
Create == \E f \in Files \ DOMAIN F, k \in {"netcdf", "netcdf4c1"} : Do([op |-> "create", f |-> f, fmt |-> k, hist |-> "s:h"]) /\ UNCHANGED ghost
Def == \E f \in DOMAIN F : DOMAIN F[f].dims = {} /\ \E m \in {<<>>, <<"time">>, <<"time", "a">>} :
   /\ Do([op |-> "define", f |-> f, s |-> "s", var |-> "b", meta |-> m, tvar |-> "a"])
   /\ ghost' = [k \in DOMAIN ghost \cup (IF Len(m) = 2 THEN {<<f, "a", 0>>, <<f, "a", 1>>} ELSE {}) |->
        IF k = <<f, "a", 0>> THEN <<<<3, 1>>, Missing>> ELSE IF k = <<f, "a", 1>> THEN <<<<4, 1>>, <<5, 1>>>> ELSE ghost[k]]
Write == \E f \in DOMAIN F : \E v \in DOMAIN F[f].vars \cap {"a", "b"} : \E i \in Steps : \E row \in Rows :
   Do([op |-> "write", f |-> f, var |-> v, index |-> i, shape |-> <<2>>, c |-> row]) /\ ghost' = [k \in DOMAIN ghost \cup {<<f, v, i>>} |-> IF k = <<f, v, i>> THEN row ELSE ghost[k]]
Copy == \E f \in DOMAIN F : "b" \in DOMAIN F[f].vars /\ Do([op |-> "copy", f |-> f, var |-> "b", s |-> "s", from |-> "a"])
   /\ ghost' = [k \in DOMAIN ghost \cup {<<f, "b", 0>>, <<f, "b", 1>>} |-> IF k = <<f, "b", 0>> THEN <<<<3, 1>>, Missing>> ELSE IF k = <<f, "b", 1>> THEN <<<<4, 1>>, <<5, 1>>>> ELSE ghost[k]]
Next == n < N /\ (Create \/ Def \/ Write \/ Copy)
Spec == Init /\ [][Next]_vars
(* what is read back is what was written last there; nothing else appears *)
RowAt(f, v, i) == [k \in 1 .. 2 |-> CellAt(F[f], v, <<i, k - 1>>)]
Kept == \A f \in DOMAIN F : \A v \in DOMAIN F[f].vars \cap {"a", "b"} : \A i \in Steps \cup {0, 1} :
   RowAt(f, v, i) = (IF <<f, v, i>> \in DOMAIN ghost THEN ghost[<<f, v, i>>] ELSE <<Missing, Missing>>)
(* the unlimited dimension is just as long as the longest variable written, others never change *)
Lengths == \A f \in DOMAIN F : "time" \in DOMAIN F[f].dims =>
   LET w == {k[3] + 1 : k \in {g \in DOMAIN ghost : g[1] = f}} \cup {Cardinality(DOMAIN F[f].vars["time"].c) : x \in DOMAIN F[f].vars \cap {"time"}} IN
   /\ F[f].dims["time"].unl /\ F[f].dims["time"].len = (IF w = {} THEN 0 ELSE CHOOSE m \in w : \A x \in w : x <= m)
   /\ F[f].dims["x"] = [len |-> 2, unl |-> FALSE]
(* attributes: those of the file copied, once each, the history extended *)
Attributes == \A f \in DOMAIN F : IF DOMAIN F[f].dims = {} THEN Keys(F[f].gattrs) = {"history"} ELSE
   /\ Len(F[f].gattrs) = 2 /\ Val(F[f].gattrs, "title") = "s:t" /\ Val(F[f].gattrs, "history") = "s:Standardized\nold"
(* operations on different files, and writes of different steps, may be exchanged *)
Other(a, b) == a.f # b.f \/ (a.op = "write" /\ b.op = "write" /\ <<a.var, a.index>> # <<b.var, b.index>>)
Exchange == Len(trail) >= 2 => LET a == trail[Len(trail) - 1] b == trail[Len(trail)] pre == RunOps(<<>>, S, SubSeq(trail, 1, Len(trail) - 2)) IN
   Other(a, b) => Step(Step(pre, S, b), S, a) = F
(* complete copies are the source's data *)
Copied == \A f \in DOMAIN F : ("b" \in DOMAIN F[f].vars /\ trail[Len(trail)].op = "copy" /\ trail[Len(trail)].f = f) =>
   SubSeq(CellsOf(F[f], "b"), 1, 4) = SrcVar(S[1], "a").c
=============================================================================
