------------------------------- MODULE Listing -------------------------------
(* The listing of dependencies: a source of definitions (the lines of a definition file, or the entries of a         *)
(* specification), the variables asked for, and what is listed for each: "deps" with a set of names, "none" (no      *)
(* dependencies, or a definition that is none), "undefined".                                                       *)
EXTENDS Grammar
(* names of variables in an expression, those in indices included *)
RECURSIVE Names(_)
KwValues(e) == {e.kw[i].v : i \in DOMAIN e.kw}
Names(e) == CASE e.t = "var" -> {e.n} \cup UNION {Names(e.x[i]) : i \in DOMAIN e.x}
              [] e.t = "op" -> UNION {Names(e.a[i]) : i \in DOMAIN e.a}
              [] e.t = "slice" -> UNION {Names(e.a[i]) : i \in DOMAIN e.a}
              [] e.t = "fn" -> UNION {Names(e.a[i]) : i \in DOMAIN e.a} \cup UNION {Names(k) : k \in KwValues(e)}
              [] OTHER -> {}
(* the same from the tokens: names that are neither called nor the keyword of an argument *)
TokenNames(ts) == {ts[i].s : i \in {j \in DOMAIN ts : ts[j].k = "name" /\ At(ts, j + 1) \notin {"(", "="}}}
Deps(s) == LET e == Parse(s) IN [ok |-> e.t # "refused", names |-> Names(e)]
(* ---- definition files: a line is name = definition, up to a comment ---- *)
Blank == {" ", "\t", "\n", "\r"}
RECURSIVE LStrip(_), RStrip(_), UpTo(_, _, _)
LStrip(s) == IF s # <<>> /\ s[1] \in Blank THEN LStrip(Tail(s)) ELSE s
RStrip(s) == IF s # <<>> /\ s[Len(s)] \in Blank THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == LStrip(RStrip(s))
UpTo(s, c, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = c THEN i ELSE UpTo(s, c, i + 1)
Uncommented(s) == LET i == UpTo(s, "#", 1) IN Strip(IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1))
LineDef(s) == LET u == Uncommented(s) i == UpTo(u, "=", 1)
              IN IF i = 0 THEN [ok |-> FALSE, junk |-> u # <<>>, n |-> "", d |-> <<>>]
                 ELSE [ok |-> TRUE, junk |-> FALSE, n |-> LET x == Strip(SubSeq(u, 1, i - 1)) IN TextOf(x, 1, Len(x) + 1), d |-> Strip(SubSeq(u, i + 1, Len(u)))]
RECURSIVE FileDefs(_, _, _)
FileDefs(lines, i, f) == IF i > Len(lines) THEN f ELSE LET x == LineDef(lines[i]) IN FileDefs(lines, i + 1, IF x.ok THEN (x.n :> x.d) @@ f ELSE f)
Junk(lines) == {i \in DOMAIN lines : LineDef(lines[i]).junk}
(* entries of a specification: [n, has: is there a definition that is a string, d] *)
EntryDefs(entries) == [n \in {entries[i].n : i \in {j \in DOMAIN entries : entries[j].has}} |-> (entries[CHOOSE i \in DOMAIN entries : entries[i].n = n]).d]
Listed(defs, n) == IF n \notin DOMAIN defs THEN [how |-> "undefined", names |-> {}]
                   ELSE LET x == Deps(defs[n]) IN IF ~x.ok \/ x.names = {} THEN [how |-> "none", names |-> {}] ELSE [how |-> "deps", names |-> x.names]
Asked(defs, want) == IF want = <<>> THEN DOMAIN defs ELSE {want[i] : i \in DOMAIN want}
AllNames(defs, want) == UNION {Listed(defs, n).names : n \in Asked(defs, want)}
=============================================================================
