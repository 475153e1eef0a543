------------------------------ MODULE MC_Chunks ------------------------------
(* Writing a file in chunks: a grid of chunks over the dimensions of the file, taken in any order; each chunk of    *)
(* each variable (the projection of the grid to its dimensions) is read from the reversed position along the        *)
(* inverted dimensions and written once.  Every cell of every variable ends up with the value of a single write.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxSize
Dims == {1, 2}
Vars == {{}, {1}, {2}, {1, 2}}
VARIABLES size, chunk, inv, todo, file, count
vars == <<size, chunk, inv, todo, file, count>>
NChunks(d) == (size[d] + chunk[d] - 1) \div chunk[d]
Grid == {<<a, b>> : a \in 0 .. NChunks(1) - 1, b \in 0 .. NChunks(2) - 1}
Lo(d, k) == k * chunk[d]
Hi(d, k) == IF (k + 1) * chunk[d] < size[d] THEN (k + 1) * chunk[d] ELSE size[d]
Cells(v) == {c \in [Dims -> 0 .. MaxSize - 1] : \A d \in Dims : IF d \in v THEN c[d] < size[d] ELSE c[d] = 0}
Source(v, c) == [d \in Dims |-> IF d \in v /\ d \in inv THEN size[d] - 1 - c[d] ELSE c[d]]
(* the part of v in grid position g, and the values that are read for it: the read range is the mirrored range,    *)
(* traversed backwards                                                                                              *)
Part(v, g) == {c \in Cells(v) : \A d \in v : Lo(d, g[d]) <= c[d] /\ c[d] < Hi(d, g[d])}
ReadStart(d, k) == IF d \in inv THEN size[d] - Lo(d, k) - 1 ELSE Lo(d, k)
ReadValue(v, g, c) == [d \in Dims |-> IF d \in v THEN (IF d \in inv THEN ReadStart(d, g[d]) - (c[d] - Lo(d, g[d])) ELSE ReadStart(d, g[d]) + (c[d] - Lo(d, g[d]))) ELSE 0]
Init == /\ size \in [Dims -> 1 .. MaxSize] /\ chunk \in [Dims -> 1 .. MaxSize + 1] /\ inv \in SUBSET Dims
        /\ todo = Grid /\ file = [v \in Vars |-> [c \in {} |-> 0]] /\ count = [v \in Vars |-> {}]
Key(v, g) == [d \in v |-> g[d]]
Write(g) ==
  /\ g \in todo
  /\ todo' = todo \ {g}
  /\ file' = [v \in Vars |-> IF Key(v, g) \in count[v] THEN file[v]
                             ELSE [c \in DOMAIN file[v] \cup Part(v, g) |-> IF c \in Part(v, g) THEN ReadValue(v, g, c) ELSE file[v][c]]]
  /\ count' = [v \in Vars |-> count[v] \cup {Key(v, g)}]
  /\ UNCHANGED <<size, chunk, inv>>
First(g) == g \in todo /\ \A h \in todo : g[1] + 10 * g[2] <= h[1] + 10 * h[2]
Next == \E g \in todo : First(g) /\ Write(g)
NextAny == \E g \in todo : Write(g)
Spec == Init /\ [][Next]_vars
SpecAny == Init /\ [][NextAny]_vars
ReadsInside == \A v \in Vars : \A c \in DOMAIN file[v] : \A d \in v : file[v][c][d] \in 0 .. size[d] - 1
Correct == \A v \in Vars : \A c \in DOMAIN file[v] : file[v][c] = Source(v, c)
Complete == todo = {} => \A v \in Vars : DOMAIN file[v] = Cells(v)
=============================================================================
