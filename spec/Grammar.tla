------------------------------- MODULE Grammar -------------------------------
(* The language of definitions: from characters to tokens to the one expression of the grammar, constants folded. *)
(*   expressions [t: "num" (v, k: "i" "f" "b"), "var" (n, x), "op" (n, a), "fn" (n, a, kw), "str" (v), "slice" (a), "none"] *)
(* Characters are strings of length one.                                                                          *)
EXTENDS Rat, FiniteSets, TLC
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitSet == {Digits[i] : i \in 1 .. 10}
DigitVal(c) == (CHOOSE i \in 1 .. 10 : Digits[i] = c) - 1
Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z","_"}
NameChars == Letters \cup DigitSet
Symbols == {"*", "/", "+", "-", "<", ">", "=", ",", ":", "(", ")", "[", "]"}
(* ---- characters to tokens: [k: "uint", "ufloat", "string", "name", or the symbol; s, v] ---- *)
Tok(k, s, v) == [k |-> k, s |-> s, v |-> v]
IsD(s, i) == i <= Len(s) /\ s[i] \in DigitSet
Is(s, i, c) == i <= Len(s) /\ s[i] = c
RECURSIVE RunOf(_, _, _)
RunOf(s, i, S) == IF i <= Len(s) /\ s[i] \in S THEN RunOf(s, i + 1, S) ELSE i
RECURSIVE TextOf(_, _, _)
TextOf(s, i, j) == IF i >= j THEN "" ELSE s[i] \o TextOf(s, i + 1, j)
RECURSIVE NumOf(_, _, _, _)
NumOf(s, i, j, v) == IF i >= j THEN v ELSE NumOf(s, i + 1, j, RAdd(RMul(v, <<10, 1>>), <<DigitVal(s[i]), 1>>))
(* end of an exponent that starts at i, or i *)
ExpEnd(s, i) ==
  IF Is(s, i, "e") \/ Is(s, i, "E")
  THEN LET j == IF Is(s, i + 1, "+") \/ Is(s, i + 1, "-") THEN i + 2 ELSE i + 1 IN IF IsD(s, j) THEN RunOf(s, j, DigitSet) ELSE i
  ELSE i
Scaled(m, e) == IF m = Zero THEN Zero ELSE IF ~IsNum(e) \/ AbsI(e[1]) > 30 THEN Unknown ELSE RMul(m, RPow(<<10, 1>>, e[1]))
ExpVal(s, i, j) == IF i = j THEN Zero ELSE IF s[i + 1] = "-" THEN RNeg(NumOf(s, i + 2, j, Zero)) ELSE NumOf(s, IF s[i + 1] = "+" THEN i + 2 ELSE i + 1, j, Zero)
LexNum(s, i) ==
  LET a == RunOf(s, i, DigitSet)
      b == IF Is(s, a, ".") THEN RunOf(s, a + 1, DigitSet) ELSE a
  IN IF Is(s, a, ".") /\ (a > i \/ b > a + 1)
     THEN LET x == ExpEnd(s, b) IN
          [tok |-> Tok("ufloat", "", Scaled(RAdd(NumOf(s, i, a, Zero), Scaled(NumOf(s, a + 1, b, Zero), <<-(b - a - 1), 1>>)), ExpVal(s, b, x))), next |-> x]
     ELSE IF a = i THEN [tok |-> Tok("bad", "", Zero), next |-> 0]
     ELSE IF ExpEnd(s, a) > a THEN [tok |-> Tok("ufloat", "", Scaled(NumOf(s, i, a, Zero), ExpVal(s, a, ExpEnd(s, a)))), next |-> ExpEnd(s, a)]
     ELSE [tok |-> Tok("uint", "", NumOf(s, i, a, Zero)), next |-> a]
(* end of the string constant that starts with quote q, 0 if it has none *)
RECURSIVE StringEnd(_, _, _)
StringEnd(s, i, q) == IF i > Len(s) THEN 0 ELSE IF s[i] = q THEN i ELSE IF s[i] = "\\" THEN (IF i < Len(s) /\ s[i + 1] # "\n" THEN StringEnd(s, i + 2, q) ELSE 0) ELSE StringEnd(s, i + 1, q)
RECURSIVE Lex(_, _, _)
Lex(s, i, acc) ==
  IF i > Len(s) THEN [ok |-> TRUE, toks |-> acc]
  ELSE LET c == s[i] two == IF i < Len(s) THEN c \o s[i + 1] ELSE c IN
    CASE c \in {" ", "\t"} -> Lex(s, i + 1, acc)
      [] c \in DigitSet \/ c = "." -> LET n == LexNum(s, i) IN IF n.next = 0 THEN [ok |-> FALSE, toks |-> <<>>] ELSE Lex(s, n.next, Append(acc, n.tok))
      [] c \in {"\"", "'"} -> LET e == StringEnd(s, i + 1, c) IN IF e = 0 THEN [ok |-> FALSE, toks |-> <<>>] ELSE Lex(s, e + 1, Append(acc, Tok("string", TextOf(s, i + 1, e), Zero)))
      [] c \in Letters -> LET e == RunOf(s, i, NameChars) IN Lex(s, e, Append(acc, Tok("name", TextOf(s, i, e), Zero)))
      [] two \in {"**", "<=", ">=", "=="} -> Lex(s, i + 2, Append(acc, Tok(two, "", Zero)))
      [] c \in Symbols -> Lex(s, i + 1, Append(acc, Tok(c, "", Zero)))
      [] OTHER -> [ok |-> FALSE, toks |-> <<>>]
(* ---- folding of constants ---- *)
Num(v, k) == [t |-> "num", v |-> v, k |-> k]
VarE(n, x) == [t |-> "var", n |-> n, x |-> x]
OpE(n, a) == [t |-> "op", n |-> n, a |-> a]
FnE(n, a, kw) == [t |-> "fn", n |-> n, a |-> a, kw |-> kw]
StrE(s) == [t |-> "str", v |-> s]
SliceE(a) == [t |-> "slice", a |-> a]
NoneE == [t |-> "none"]
NoExpr == [t |-> "refused"]
BoolE(b) == Num(IF b THEN One ELSE Zero, "b")
Both(a, b) == IF a.k = "f" \/ b.k = "f" THEN "f" ELSE "i"
IsWhole(x) == IsNum(x) /\ x[2] = 1
FoldPow(a, b) ==
  IF a.k # "f" /\ b.k # "f" /\ IsNum(b.v) /\ b.v[1] >= 0 THEN Num(IF IsNum(a.v) /\ b.v[1] < 200 THEN RPow(a.v, b.v[1]) ELSE Unknown, "i")
  ELSE IF ~IsNum(a.v) \/ ~IsNum(b.v) THEN Num(Unknown, "f")
  ELSE IF a.v = Zero /\ b.v[1] < 0 THEN NoExpr
  ELSE IF IsWhole(b.v) /\ AbsI(b.v[1]) < 200 THEN Num(RPow(a.v, b.v[1]), "f")
  ELSE IF b.v = <<1, 2>> /\ a.v[1] >= 0 THEN Num(RSqrt(a.v), "f")
  ELSE Num(Unknown, "f")
FoldCmp(o, a, b) == IF ~IsNum(a.v) \/ ~IsNum(b.v) THEN Num(Unknown, "b")
                    ELSE BoolE(CASE o = "<" -> RLt(a.v, b.v) [] o = ">" -> RLt(b.v, a.v) [] o = "<=" -> RLe(a.v, b.v) [] o = ">=" -> RLe(b.v, a.v) [] OTHER -> a.v = b.v)
Fold(o, a, b) ==
  CASE o = "+" -> Num(RAdd(a.v, b.v), Both(a, b))
    [] o = "-" -> Num(RSub(a.v, b.v), Both(a, b))
    [] o = "*" -> Num(RMul(a.v, b.v), Both(a, b))
    [] o = "/" -> IF b.v = Zero THEN NoExpr ELSE Num(IF ~IsNum(b.v) THEN Unknown ELSE RDiv(a.v, b.v), "f")
    [] o = "**" -> FoldPow(a, b)
    [] OTHER -> FoldCmp(o, a, b)
Binary(o, a, b) == IF a.t = "refused" \/ b.t = "refused" THEN NoExpr ELSE IF a.t = "num" /\ b.t = "num" THEN Fold(o, a, b) ELSE OpE(o, <<a, b>>)
Unary(o, a) == IF a.t = "refused" THEN NoExpr ELSE IF o = "+" THEN a ELSE IF a.t = "num" THEN Num(RNeg(a.v), IF a.k = "b" THEN "i" ELSE a.k) ELSE OpE("-", <<a>>)
(* ---- tokens to expressions, by precedence ---- *)
Level(k) == CASE k = "==" -> 1 [] k \in {"<", ">", "<=", ">="} -> 2 [] k \in {"+", "-"} -> 3 [] k \in {"*", "/"} -> 4 [] k = "**" -> 6 [] OTHER -> 0
UnaryLevel == 5
At(ts, p) == IF p <= Len(ts) THEN ts[p].k ELSE "end"
Done(e, p) == [ok |-> e.t # "refused", e |-> e, p |-> p]
Fail == [ok |-> FALSE, e |-> NoExpr, p |-> 0]
RECURSIVE Expr(_, _, _), Rest(_, _, _, _), Primary(_, _), Arguments(_, _, _, _, _), IndexList(_, _, _), IndexItem(_, _), SliceArg(_, _)
Expr(ts, p, lv) == LET a == Primary(ts, p) IN IF a.ok THEN Rest(ts, a.p, lv, a.e) ELSE Fail
Rest(ts, p, lv, left) ==
  LET k == At(ts, p) IN
  IF Level(k) = 0 \/ Level(k) < lv THEN Done(left, p)
  ELSE LET b == Expr(ts, p + 1, Level(k) + 1)
           e == IF b.ok THEN Binary(k, left, b.e) ELSE NoExpr
       IN IF e.t = "refused" THEN Fail ELSE Rest(ts, b.p, lv, e)
Primary(ts, p) ==
  LET k == At(ts, p) IN
  CASE k = "uint" -> Done(Num(ts[p].v, "i"), p + 1)
    [] k = "ufloat" -> Done(Num(ts[p].v, "f"), p + 1)
    [] k \in {"+", "-"} -> LET a == Expr(ts, p + 1, UnaryLevel + 1) IN IF a.ok THEN Done(Unary(k, a.e), a.p) ELSE Fail
    [] k = "(" -> LET a == Expr(ts, p + 1, 1) IN IF a.ok /\ At(ts, a.p) = ")" THEN Done(a.e, a.p + 1) ELSE Fail
    [] k = "name" /\ At(ts, p + 1) = "(" -> Arguments(ts, p + 2, ts[p].s, <<>>, <<>>)
    [] k = "name" /\ At(ts, p + 1) = "[" -> LET a == IndexList(ts, p + 2, <<>>) IN IF a.ok THEN Done(VarE(ts[p].s, a.e), a.p) ELSE Fail
    [] k = "name" -> Done(VarE(ts[p].s, <<>>), p + 1)
    [] OTHER -> Fail
(* arguments without and then with a name, up to the closing parenthesis *)
Arguments(ts, p, n, args, kw) ==
  IF At(ts, p) = ")" /\ args = <<>> /\ kw = <<>> THEN Done(FnE(n, <<>>, <<>>), p + 1)
  ELSE LET named == At(ts, p) = "name" /\ At(ts, p + 1) = "="
           q == IF named THEN p + 2 ELSE p
           a == IF At(ts, q) = "string" THEN Done(StrE(ts[q].s), q + 1) ELSE Expr(ts, q, 1)
       IN IF ~a.ok \/ (~named /\ kw # <<>>) THEN Fail
          ELSE LET args2 == IF named THEN args ELSE Append(args, a.e)
                   kw2 == IF named THEN Append(kw, [n |-> ts[p].s, v |-> a.e]) ELSE kw
               IN IF At(ts, a.p) = ")" THEN Done(FnE(n, args2, kw2), a.p + 1)
                  ELSE IF At(ts, a.p) = "," /\ At(ts, a.p + 1) # ")" THEN Arguments(ts, a.p + 1, n, args2, kw2) ELSE Fail
IndexList(ts, p, acc) ==
  LET a == IndexItem(ts, p) IN
  IF ~a.ok THEN Fail ELSE IF At(ts, a.p) = "]" THEN [ok |-> TRUE, e |-> Append(acc, a.e), p |-> a.p + 1] ELSE IF At(ts, a.p) = "," THEN IndexList(ts, a.p + 1, Append(acc, a.e)) ELSE Fail
SliceArg(ts, p) == IF At(ts, p) \in {":", ",", "]"} THEN Done(NoneE, p) ELSE Expr(ts, p, 1)
IndexItem(ts, p) ==
  LET a == SliceArg(ts, p) IN
  IF ~a.ok THEN Fail
  ELSE IF At(ts, a.p) # ":" THEN (IF a.e.t = "none" THEN Fail ELSE a)
  ELSE LET b == SliceArg(ts, a.p + 1) IN
       IF ~b.ok THEN Fail
       ELSE IF At(ts, b.p) # ":" THEN Done(SliceE(<<a.e, b.e, NoneE>>), b.p)
       ELSE LET c == SliceArg(ts, b.p + 1) IN IF c.ok THEN Done(SliceE(<<a.e, b.e, c.e>>), c.p) ELSE Fail
ParseTokens(ts) == LET a == Expr(ts, 1, 1) IN IF a.ok /\ a.p = Len(ts) + 1 THEN a.e ELSE NoExpr
Parse(s) == LET x == Lex(s, 1, <<>>) IN IF x.ok THEN ParseTokens(x.toks) ELSE NoExpr
(* what the grammar leaves open: an empty first argument, and a name given twice *)
Unsettled(ts) == \E i \in 1 .. Len(ts) - 1 : ts[i].k = "(" /\ ts[i + 1].k = ","
=============================================================================
