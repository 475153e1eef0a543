------------------------------- MODULE MC_Chars ------------------------------
(* Strings along one dimension: each is a row of characters, of which those after its end are padding (0).  A file   *)
(* whose string length is L and that has N places is written in chunks of both dimensions, from rows of length n,    *)
(* taken from the mirrored place if the places are inverted; every chunk is padded to its own part of the string      *)
(* length.  The strings read back are the given ones.                                                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN, MaxL
Letters == {1, 2}
RECURSIVE Upto(_)
Upto(n) == IF n = 0 THEN {<<>>} ELSE LET S == Upto(n - 1) IN S \cup {Append(s, c) : s \in {t \in S : Len(t) = n - 1}, c \in Letters}
VARIABLES strings, len, size, inv, chunk, todo, file
vars == <<strings, len, size, inv, chunk, todo, file>>
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Row(s, n) == [k \in 1 .. n |-> IF k <= Len(s) THEN s[k] ELSE 0]
N == Len(strings)
Parts(n, c) == {<<k * c + 1, IF (k + 1) * c < n THEN (k + 1) * c ELSE n>> : k \in 0 .. ((n + c - 1) \div c) - 1}
Init == /\ strings \in UNION {[1 .. m -> Upto(MaxL)] : m \in 1 .. MaxN}
        /\ len = Max({Len(strings[i]) : i \in DOMAIN strings} \cup {1})
        /\ size \in len .. (MaxL + 1) /\ inv \in BOOLEAN /\ chunk \in (1 .. MaxN) \X (1 .. MaxL + 1)
        /\ todo = Parts(Len(strings), chunk[1]) \X Parts(size, chunk[2])
        /\ file = [c \in {} |-> 0]
(* what is read for a part: the rows have len characters *)
ReadPart(p, q) == [i \in p[1] .. p[2] |-> LET s == strings[IF inv THEN N + 1 - i ELSE i] r == Row(s, len) IN
                     SubSeq(r, q[1], IF q[2] < len THEN q[2] ELSE len)]
Stretched(r, n) == [k \in 1 .. n |-> IF k <= Len(r) THEN r[k] ELSE 0]
Write(g) ==
  /\ g \in todo /\ todo' = todo \ {g}
  /\ LET p == g[1] q == g[2] rd == ReadPart(p, q)
         new == {<<i, k>> : i \in p[1] .. p[2], k \in q[1] .. q[2]}
     IN file' = [c \in DOMAIN file \cup new |-> IF c \in new THEN Stretched(rd[c[1]], q[2] - q[1] + 1)[c[2] - q[1] + 1] ELSE file[c]]
  /\ UNCHANGED <<strings, len, size, inv, chunk>>
First(g) == g \in todo /\ \A h \in todo : g[1][1] * 10 + g[2][1] <= h[1][1] * 10 + h[2][1]
Next == \E g \in todo : First(g) /\ Write(g)
Spec == Init /\ [][Next]_vars
Place(i) == IF inv THEN N + 1 - i ELSE i
InPlace == \A c \in DOMAIN file : file[c] = Row(strings[Place(c[1])], size)[c[2]]
Strip(r) == SubSeq(r, 1, Max({k \in DOMAIN r : r[k] # 0} \cup {0}))
ReadBack == todo = {} => /\ DOMAIN file = {<<i, k>> : i \in 1 .. N, k \in 1 .. size}
                         /\ \A i \in 1 .. N : Strip([k \in 1 .. size |-> file[<<i, k>>]]) = strings[Place(i)]
Ends == todo # {} => ENABLED Next
=============================================================================
