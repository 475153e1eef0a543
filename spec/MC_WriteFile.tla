----------------------------- MODULE MC_WriteFile -----------------------------
(* How output files are written: under a temporary name, piece by piece, and renamed when closed.  A run can be      *)
(* killed before any step, can fail at any step, and can be executed again, by the same process (which still knows    *)
(* its open file) or by another one, with more or fewer files already there.                                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxFiles, MaxPieces, MaxRuns,
          Discards    \* an execution begins by discarding the file that a failed one left open (FALSE: the defect that was repaired)
VARIABLES n,       \* number of files
          final,   \* f -> 0: no file, -1: an earlier file, else how many pieces of this conversion it contains (complete: MaxPieces + 1, with header)
          temp,    \* f -> the same for the temporary name
          open,    \* f -> the process has the file open under its temporary name
          written, \* f -> what the process believes to have written of the open file
          run,     \* number of this execution
          at,      \* file being written, n + 1 when all are
          state    \* "going", "failed" (the process lives), "killed", "ended"
vars == <<n, final, temp, open, written, run, at, state>>
Files == 1 .. n
Full == MaxPieces + 1
Init == /\ n \in 1 .. MaxFiles /\ final \in [1 .. n -> {0, -1}] /\ temp \in [1 .. n -> {0, -1}]
        /\ open = [f \in 1 .. n |-> FALSE] /\ written = [f \in 1 .. n |-> 0] /\ run = 1 /\ at = 1 /\ state = "going"
Going == state = "going" /\ at <= n
(* creating the file empties whatever had its temporary name *)
Open == /\ Going /\ ~open[at] /\ open' = [open EXCEPT ![at] = TRUE] /\ temp' = [temp EXCEPT ![at] = 0] /\ written' = [written EXCEPT ![at] = 0]
        /\ UNCHANGED <<n, final, run, at, state>>
Write == /\ Going /\ open[at] /\ written[at] < Full /\ written' = [written EXCEPT ![at] = @ + 1] /\ temp' = [temp EXCEPT ![at] = IF @ < 0 THEN 1 ELSE @ + 1]
         /\ UNCHANGED <<n, final, open, run, at, state>>
(* closing and renaming: between them everything may stop *)
Close == /\ Going /\ open[at] /\ written[at] = Full /\ open' = [open EXCEPT ![at] = FALSE] /\ UNCHANGED <<n, final, temp, written, run, at, state>>
Rename == /\ Going /\ ~open[at] /\ written[at] = Full /\ final' = [final EXCEPT ![at] = temp[at]] /\ temp' = [temp EXCEPT ![at] = 0]
          /\ at' = at + 1 /\ UNCHANGED <<n, open, written, run, state>>
End == state = "going" /\ at = n + 1 /\ state' = "ended" /\ UNCHANGED <<n, final, temp, open, written, run, at>>
Fail == Going /\ state' = "failed" /\ UNCHANGED <<n, final, temp, open, written, run, at>>
(* whether what was written last got to the disk is open *)
Kill == /\ state \in {"going", "failed"} /\ state' = "killed" /\ open' = [f \in Files |-> FALSE]
        /\ temp' \in {[f \in Files |-> IF open[f] THEN k[f] ELSE temp[f]] : k \in {[f \in Files |-> temp[f]], [f \in Files |-> IF temp[f] > 0 THEN temp[f] - 1 ELSE temp[f]]}}
        /\ UNCHANGED <<n, final, written, run, at>>
(* executed again: a process that failed remembers its open file; a piece that failed may have been skipped *)
Again == /\ state \in {"failed", "killed", "ended"} /\ run < MaxRuns /\ run' = run + 1 /\ at' = 1 /\ state' = "going"
         /\ IF state = "failed" /\ ~Discards
            \* the open file is simply gone on with, from the first piece: its header is not written again, pieces that were skipped stay missing
            THEN written' = [f \in Files |-> IF open[f] THEN Full ELSE 0] /\ open' = open
            ELSE written' = [f \in Files |-> 0] /\ open' = [f \in Files |-> FALSE]
         /\ UNCHANGED <<n, final, temp>>
Rest == state \in {"ended", "failed", "killed"} /\ run = MaxRuns /\ UNCHANGED vars
Next == Open \/ Write \/ Close \/ Rename \/ End \/ Fail \/ Kill \/ Again \/ Rest
Spec == Init /\ [][Next]_vars
(* --- checked *)
Complete == \A f \in Files : final[f] \in {0, -1, Full}
EndedWithAll == state = "ended" => \A f \in Files : final[f] = Full /\ temp[f] = 0 /\ ~open[f]
OneOpen == Cardinality({f \in Files : open[f]}) <= 1
(* what is there under a final name never goes away *)
Kept == [][\A f \in DOMAIN final : final[f] # 0 => final'[f] # 0]_vars
NeverUndone == [][\A f \in DOMAIN final : final[f] = Full => final'[f] = Full]_vars
=============================================================================
