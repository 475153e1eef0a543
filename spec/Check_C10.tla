------------------------------ MODULE Check_C10 ------------------------------
(* Records of the real parser, in batches: characters s, error or expression e, printed form pr, and re, what the printed form parses to *)
EXTENDS TraceBase, Grammar
RECURSIVE SameExpr(_, _), Doubtful(_), Doubled(_)
SameSeq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : SameExpr(a[i], b[i])
SameExpr(e, o) ==
  /\ e.t = o.t
  /\ CASE e.t = "num" -> e.v = Unknown \/ (e.k = o.k /\ Agree(e.v, o.v, 1000000))
       [] e.t = "var" -> e.n = o.n /\ SameSeq(e.x, o.x)
       [] e.t = "op" -> e.n = o.n /\ SameSeq(e.a, o.a)
       [] e.t = "fn" -> e.n = o.n /\ SameSeq(e.a, o.a) /\ Len(e.kw) = Len(o.kw) /\ \A i \in DOMAIN e.kw : e.kw[i].n = o.kw[i].n /\ SameExpr(e.kw[i].v, o.kw[i].v)
       [] e.t = "str" -> e.v = o.v
       [] e.t = "slice" -> SameSeq(e.a, o.a)
       [] OTHER -> TRUE
Parts(e) == CASE e.t = "var" -> e.x [] e.t = "op" -> e.a [] e.t = "slice" -> e.a [] e.t = "fn" -> e.a \o [i \in DOMAIN e.kw |-> e.kw[i].v] [] OTHER -> <<>>
(* constants the specification does not follow, or that have no literal *)
Doubtful(e) == (e.t = "num" /\ (e.v = Unknown \/ e.k = "b")) \/ \E i \in DOMAIN Parts(e) : Doubtful(Parts(e)[i])
HasUnknown(ts) == \E i \in DOMAIN ts : ts[i].k \in {"uint", "ufloat"} /\ ts[i].v = Unknown
Doubled(e) == (e.t = "fn" /\ \E i, j \in DOMAIN e.kw : i < j /\ e.kw[i].n = e.kw[j].n) \/ \E i \in DOMAIN Parts(e) : Doubled(Parts(e)[i])
JudgeItem(it) ==
  LET x == Lex(it.s, 1, <<>>)
      e == IF x.ok THEN ParseTokens(x.toks) ELSE NoExpr
  IN IF x.ok /\ Unsettled(x.toks) THEN {}
     ELSE IF e.t = "refused" THEN (IF x.ok /\ HasUnknown(x.toks) THEN {} ELSE Clause(it.err # "", "string_outside_the_grammar_accepted"))
     ELSE IF Doubled(e) THEN {}
     ELSE IF it.err # "" THEN (IF Doubtful(e) THEN {} ELSE {"definition_refused"})
     ELSE Clause(SameExpr(e, it.e), "expression")
          \cup (IF Doubtful(e) THEN {} ELSE Clause(it.re = it.e, "printed_expression"))
(* the same definition written with other spaces *)
JudgeSpaced(it) == Clause(it.err = it.err2 /\ it.e = it.e2, "spaces_matter")
RECURSIVE OpsIn(_)
OpsIn(e) == (IF e.t = "op" THEN {(IF Len(e.a) = 1 THEN "u" ELSE "b") \o e.n} ELSE IF e.t = "fn" THEN {"function"} \cup Tag(e.kw # <<>>, "keyword") ELSE IF e.t = "str" THEN {"string"}
             ELSE IF e.t = "slice" THEN {"slice"} ELSE IF e.t = "var" THEN Tag(e.x # <<>>, "index") ELSE IF e.t = "num" THEN {"num_" \o e.k} ELSE {})
            \cup UNION {OpsIn(Parts(e)[i]) : i \in DOMAIN Parts(e)}
TagsItem(it) == IF it.err # "" THEN {"refused"} ELSE OpsIn(it.e)
AssessRecord(r) == [bad |-> UNION {JudgeItem(r.items[i]) \cup (IF r.kind = "spaced" THEN JudgeSpaced(r.items[i]) ELSE {}) : i \in DOMAIN r.items},
                    tags |-> {r.tag} \cup UNION {TagsItem(r.items[i]) : i \in DOMAIN r.items}]
==============================================================================
