----------------------------- MODULE MC_Parallel -----------------------------
(* All interleavings of all ranks, for all numbers of ranks and files and all weights within the bounds.           *)
EXTENDS Parallel, TLC
CONSTANTS MaxRanks, MaxFiles, MaxWeight
Lists == UNION {[1 .. n -> 0 .. MaxWeight] : n \in 0 .. MaxFiles}
VARIABLES n, w, part, pc, at, file
(* part[k]: what rank k was given (<<0>>: nothing received yet); pc: part, wait1, write, wait2, done; at: barriers    *)
(* reached; file[f]: how often file f was written, being written is one step between two                           *)
vars == <<n, w, part, pc, at, file>>
Init == /\ n \in 1 .. MaxRanks /\ w \in Lists
        /\ part = [k \in 1 .. n |-> <<0>>] /\ pc = [k \in 1 .. n |-> "part"] /\ at = [k \in 1 .. n |-> 0] /\ file = [f \in DOMAIN w |-> 0]
(* the manager hands out parts one at a time and goes on when it has *)
Hand(k) == /\ pc[1] = "part" /\ k # 1 /\ part[k] = <<0>> /\ part' = [part EXCEPT ![k] = Divide(n, w)[k]] /\ UNCHANGED <<n, w, pc, at, file>>
Own == /\ pc[1] = "part" /\ (\A k \in 2 .. n : part[k] # <<0>>) /\ part' = [part EXCEPT ![1] = Divide(n, w)[1]]
       /\ pc' = [pc EXCEPT ![1] = "wait1"] /\ at' = [at EXCEPT ![1] = 1] /\ UNCHANGED <<n, w, file>>
Receive(k) == /\ k # 1 /\ pc[k] = "part" /\ part[k] # <<0>> /\ pc' = [pc EXCEPT ![k] = "wait1"] /\ at' = [at EXCEPT ![k] = 1] /\ UNCHANGED <<n, w, part, file>>
Pass(k) == /\ pc[k] \in {"wait1", "wait2"} /\ \A j \in 1 .. n : at[j] >= at[k]
           /\ pc' = [pc EXCEPT ![k] = IF @ = "wait1" THEN "write" ELSE "done"] /\ UNCHANGED <<n, w, part, at, file>>
Write(k) == /\ pc[k] = "write" /\ part[k] # <<>> /\ file' = [file EXCEPT ![part[k][1]] = @ + 1] /\ part' = [part EXCEPT ![k] = Tail(@)] /\ UNCHANGED <<n, w, pc, at>>
Finish(k) == /\ pc[k] = "write" /\ part[k] = <<>> /\ pc' = [pc EXCEPT ![k] = "wait2"] /\ at' = [at EXCEPT ![k] = 2] /\ UNCHANGED <<n, w, part, file>>
Done == \A k \in 1 .. n : pc[k] = "done"
Next == (\E k \in 1 .. n : Hand(k) \/ Receive(k) \/ Pass(k) \/ Write(k) \/ Finish(k)) \/ Own \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* --- checked (deadlock too) *)
AtMostOnce == \A f \in DOMAIN w : file[f] <= 1
AllWritten == Done => \A f \in DOMAIN w : file[f] = 1
Ends == <>Done
Divided == LET D == Divide(n, w) IN /\ UNION {Range2(D[g]) : g \in 1 .. n} = DOMAIN w
                                     /\ \A j, h \in 1 .. n : j # h => Range2(D[j]) \cap Range2(D[h]) = {}
                                     /\ \A k \in 1 .. n : Cardinality(Range2(D[k])) = Len(D[k])
(* nobody goes on writing while others have ended *)
Together == \A j, k \in 1 .. n : pc[j] = "done" => part[k] = <<>>
=============================================================================
