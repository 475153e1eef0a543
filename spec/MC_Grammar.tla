----------------------------- MODULE MC_Grammar -----------------------------
(* The reading of token sequences by precedence, against the declarative grammar: the trees any token sequence has *)
(* under the grammar without precedence, of which exactly one respects the precedences.                            *)
EXTENDS Grammar
CONSTANTS Alphabet, MaxLen
VARIABLE ts
T(k) == CASE k = "x" -> Tok("name", "x", Zero) [] k = "1" -> Tok("uint", "", One) [] k = "s" -> Tok("string", "s", Zero) [] OTHER -> Tok(k, "", Zero)
Init == ts = <<>>
Next == Len(ts) < MaxLen /\ \E k \in Alphabet : ts' = Append(ts, T(k))
Spec == Init /\ [][Next]_ts
(* ---- the declarative grammar ---- tree: [f: "atom" "paren" "un" "bin", o, a: children, e: expression] *)
Leaf(e) == [f |-> "atom", o |-> "", a |-> <<>>, e |-> e]
BinOps == {"==", "<", ">", "<=", ">=", "+", "-", "*", "/", "**"}
(* bare operators at the right edge of a tree *)
RECURSIVE RightUnary(_)
RightUnary(t) == IF t.f = "un" THEN TRUE ELSE IF t.f = "bin" THEN RightUnary(t.a[2]) ELSE FALSE
GoodLeft(o, t) == CASE t.f = "bin" -> Level(t.o) >= Level(o) /\ (RightUnary(t) => Level(o) < UnaryLevel) [] t.f = "un" -> Level(o) < UnaryLevel [] OTHER -> TRUE
GoodRight(o, t) == t.f = "bin" => Level(t.o) > Level(o)
GoodUnary(t) == t.f = "bin" => Level(t.o) > UnaryLevel
Sub(s, i, j) == SubSeq(s, i, j)
RECURSIVE Trees(_), Lists(_)
Trees(s) ==
  IF s = <<>> THEN {}
  ELSE (IF Len(s) = 1 /\ s[1].k = "name" THEN {Leaf(VarE(s[1].s, <<>>))} ELSE IF Len(s) = 1 /\ s[1].k = "uint" THEN {Leaf(Num(s[1].v, "i"))} ELSE {})
       \cup (IF Len(s) > 2 /\ s[1].k = "(" /\ s[Len(s)].k = ")" THEN {[f |-> "paren", o |-> "", a |-> <<t>>, e |-> t.e] : t \in Trees(Sub(s, 2, Len(s) - 1))} ELSE {})
       \cup (IF Len(s) > 2 /\ s[1].k = "name" /\ s[2].k = "(" /\ s[Len(s)].k = ")" THEN {Leaf(FnE(s[1].s, a, <<>>)) : a \in Lists(Sub(s, 3, Len(s) - 1))} ELSE {})
       \cup (IF s[1].k \in {"+", "-"} THEN {[f |-> "un", o |-> s[1].k, a |-> <<t>>, e |-> Unary(s[1].k, t.e)] : t \in {t \in Trees(Tail(s)) : GoodUnary(t)}} ELSE {})
       \cup UNION {{[f |-> "bin", o |-> s[i].k, a |-> <<p[1], p[2]>>, e |-> Binary(s[i].k, p[1].e, p[2].e)] :
                     p \in {p \in Trees(Sub(s, 1, i - 1)) \X Trees(Sub(s, i + 1, Len(s))) : GoodLeft(s[i].k, p[1]) /\ GoodRight(s[i].k, p[2])}} :
                    i \in {i \in 2 .. Len(s) - 1 : s[i].k \in BinOps}}
(* lists of arguments *)
Arg(s) == IF Len(s) = 1 /\ s[1].k = "string" THEN {StrE(s[1].s)} ELSE {t.e : t \in Trees(s)} \ {NoExpr}
Lists(s) == IF s = <<>> THEN {<<>>}
            ELSE {<<a>> : a \in Arg(s)} \cup UNION {{Append(p[1], p[2]) : p \in (Lists(Sub(s, 1, i - 1)) \ {<<>>}) \X Arg(Sub(s, i + 1, Len(s)))} : i \in {i \in 2 .. Len(s) - 1 : s[i].k = ","}}
Readings == Trees(ts)
Unambiguous == Cardinality(Readings) <= 1
Agrees == LET R == {t.e : t \in Readings} IN ParseTokens(ts) = (IF R = {} THEN NoExpr ELSE CHOOSE e \in R : TRUE)
(* parentheses around the whole change nothing *)
Grouped == ts # <<>> /\ ParseTokens(ts).t # "refused" => ParseTokens(<<T("(")>> \o ts \o <<T(")")>>) = ParseTokens(ts)
(* the fully bracketed form of what was read is read as the same expression *)
RECURSIVE Shown(_), ShownList(_)
ShownNum(v) == IF v[1] < 0 THEN <<T("("), T("-"), Tok("uint", "", RNeg(v)), T(")")>> ELSE <<Tok("uint", "", v)>>
Shown(e) == CASE e.t = "num" -> ShownNum(e.v) [] e.t = "var" -> <<Tok("name", e.n, Zero)>> [] e.t = "str" -> <<Tok("string", e.v, Zero)>>
              [] e.t = "fn" -> <<Tok("name", e.n, Zero), T("(")>> \o ShownList(e.a) \o <<T(")")>>
              [] Len(e.a) = 1 -> <<T("("), T(e.n)>> \o Shown(e.a[1]) \o <<T(")")>>
              [] OTHER -> <<T("(")>> \o Shown(e.a[1]) \o <<T(e.n)>> \o Shown(e.a[2]) \o <<T(")")>>
ShownList(a) == IF a = <<>> THEN <<>> ELSE Shown(a[1]) \o (IF Len(a) = 1 THEN <<>> ELSE <<T(",")>> \o ShownList(Tail(a)))
RECURSIVE Whole(_)
Whole(e) == IF e.t = "num" THEN e.k = "i" ELSE e.t \notin {"op", "fn"} \/ \A i \in DOMAIN e.a : Whole(e.a[i])
RoundTrip == LET e == ParseTokens(ts) IN e.t # "refused" /\ Whole(e) => ParseTokens(Shown(e)) = e
==============================================================================
