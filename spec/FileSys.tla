------------------------------- MODULE FileSys -------------------------------
(* Names and files of a directory, and the operations of a process on them:                                       *)
(*  [op "create" n ino] a new empty file; "write" ino (its contents change); "close" ino; "rename" n m; "link" n m;   *)
(*  "unlink" n.  bound: the names there are, as pairs <<name, file>>; a file is known by a number of its own.       *)
(* Final: the names whose files have to be complete at every instant.                                             *)
EXTENDS Integers, Sequences, FiniteSets
Names(b) == {p[1] : p \in b}
At(b, n) == {p \in b : p[1] = n}
FileAt(b, n) == (CHOOSE p \in b : p[1] = n)[2]
Rebind(b, n, i) == (b \ At(b, n)) \cup {<<n, i>>}
Effect(b, e) ==
  CASE e.op = "create" -> Rebind(b, e.a, e.ino)
    [] e.op = "rename" -> IF At(b, e.a) = {} THEN (IF e.b = "" THEN b ELSE Rebind(b, e.b, e.ino)) ELSE LET i == FileAt(b, e.a) IN IF e.b = "" THEN b \ At(b, e.a) ELSE Rebind(b \ At(b, e.a), e.b, i)
    [] e.op = "link" -> Rebind(b, e.b, IF e.a # "" /\ At(b, e.a) # {} THEN FileAt(b, e.a) ELSE e.ino)
    [] e.op = "unlink" -> b \ At(b, e.a)
    [] OTHER -> b
(* what the operation e does to the guarantee, with names b before it; open: files still being written           *)
Harm(b, open, old, Final, e) ==
  LET c == Effect(b, e) IN
    (IF e.op = "create" /\ e.a \in Final THEN {"created_under_final_name"} ELSE {})
    \cup (IF e.op = "write" /\ \E p \in b : p[2] = e.ino /\ p[1] \in Final THEN {"written_under_final_name"} ELSE {})
    \cup (IF e.op \in {"rename", "link"} /\ e.b \in Final /\ \E p \in c : p[1] = e.b /\ p[2] \in open THEN {"unfinished_under_final_name"} ELSE {})
    \cup (IF \E n \in old : n \in Names(b) /\ n \notin Names(c) THEN {"earlier_file_lost"} ELSE {})
Opened(open, e) == IF e.op = "create" THEN open \cup {e.ino} ELSE IF e.op = "write" THEN open \cup {e.ino} ELSE IF e.op = "close" THEN open \ {e.ino} ELSE open
RECURSIVE Watch(_, _, _, _, _, _)
Watch(s, b, open, old, Final, bad) ==
  IF s = <<>> THEN [bound |-> b, bad |-> bad]
  ELSE Watch(Tail(s), Effect(b, s[1]), Opened(open, s[1]), old, Final, bad \cup Harm(b, open, old, Final, s[1]))
=============================================================================
