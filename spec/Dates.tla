-------------------------------- MODULE Dates --------------------------------
(* Dates of time values, and names of files with date templates: "{" format "-" format "}" stands for the first and   *)
(* the last time.  Texts are sequences of characters; formats have fields %Y %m %d %H %M %S %j and other characters.  *)
EXTENDS Units, FiniteSets, TLC
NoDate == [ok |-> FALSE, y |-> 0, m |-> 0, d |-> 0, j |-> 0, s |-> 0]
(* how many of the unit make a day; 0: not known *)
PerDay(u) == CASE u.k = <<86400, 1>> -> 1 [] u.k = <<3600, 1>> -> 24 [] u.k = <<60, 1>> -> 1440 [] u.k = One -> 86400 [] OTHER -> 0
Binary(d) == d \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}
(* the date of the number x in the units u, to the second; numbers that are no binary fractions are rounded somehow  *)
DateAt(u, x) ==
  IF ~IsTimeRef(u) \/ ~IsNum(x) \/ ~Binary(x[2]) \/ PerDay(u) = 0 THEN NoDate
  ELSE LET q == PerDay(u) w == x[1] \div x[2] f == x[1] % x[2]
           s == ((((w % q) * x[2] + f) * (86400 \div q)) \div x[2]) + u.ref[2]
           n == u.ref[1] + w \div q + s \div 86400
           e == DateOf(u.cal, n)
       IN [ok |-> e.y > 0 /\ (e.y > 1600 \/ u.cal # "standard"), y |-> e.y, m |-> e.m, d |-> e.d, j |-> DayOfYear(u.cal, n), s |-> s % 86400]
DigitsOf == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Padded(_, _)
Padded(n, w) == IF w = 0 THEN "" ELSE Padded(n \div 10, w - 1) \o DigitsOf[(n % 10) + 1]
Fields == {"Y", "m", "d", "H", "M", "S", "j"}
Field(f, t) == CASE f = "Y" -> Padded(t.y, 4) [] f = "m" -> Padded(t.m, 2) [] f = "d" -> Padded(t.d, 2) [] f = "H" -> Padded(t.s \div 3600, 2)
                 [] f = "M" -> Padded((t.s \div 60) % 60, 2) [] f = "S" -> Padded(t.s % 60, 2) [] f = "j" -> Padded(t.j, 3)
RECURSIVE Format(_, _)
Format(s, t) == IF s = <<>> THEN "" ELSE IF s[1] = "%" THEN Field(s[2], t) \o Format(SubSeq(s, 3, Len(s)), t) ELSE s[1] \o Format(Tail(s), t)
RECURSIVE KnownFormat(_)
KnownFormat(s) == s = <<>> \/ IF s[1] = "%" THEN Len(s) > 1 /\ s[2] \in Fields /\ KnownFormat(SubSeq(s, 3, Len(s))) ELSE s[1] \notin {" ", "{"} /\ KnownFormat(Tail(s))
RECURSIVE Text(_)
Text(s) == IF s = <<>> THEN "" ELSE s[1] \o Text(Tail(s))
(* first place of c in s from i on, 0 if there is none *)
RECURSIVE Find(_, _, _)
Find(s, c, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = c THEN i ELSE Find(s, c, i + 1)
HasTemplate(s) == Find(s, "{", 1) # 0
(* [t |-> "text", s] and [t |-> "range", a, b]; "bad": not closed, or not two formats *)
RECURSIVE Pieces(_)
Pieces(s) ==
  LET i == Find(s, "{", 1) j == IF i = 0 THEN 0 ELSE Find(s, "}", i) IN
  IF i = 0 THEN <<[t |-> "text", s |-> s, a |-> <<>>, b |-> <<>>]>>
  ELSE IF j = 0 THEN <<[t |-> "bad", s |-> <<>>, a |-> <<>>, b |-> <<>>]>>
  ELSE LET c == SubSeq(s, i + 1, j - 1) k == Find(c, "-", 1) IN
       <<[t |-> "text", s |-> SubSeq(s, 1, i - 1), a |-> <<>>, b |-> <<>>],
         IF k = 0 \/ Find(c, "-", k + 1) # 0 THEN [t |-> "bad", s |-> <<>>, a |-> <<>>, b |-> <<>>]
         ELSE [t |-> "range", s |-> <<>>, a |-> SubSeq(c, 1, k - 1), b |-> SubSeq(c, k + 1, Len(c))]>> \o Pieces(SubSeq(s, j + 1, Len(s)))
WellFormed(s) == LET p == Pieces(s) IN \A i \in DOMAIN p : p[i].t # "bad"
Modelled(s) == LET p == Pieces(s) IN \A i \in DOMAIN p : KnownFormat(p[i].a) /\ KnownFormat(p[i].b)
RECURSIVE Fill(_, _, _)
Fill(p, t1, t2) == IF p = <<>> THEN "" ELSE (IF p[1].t = "range" THEN Format(p[1].a, t1) \o "-" \o Format(p[1].b, t2) ELSE Text(p[1].s)) \o Fill(Tail(p), t1, t2)
NameFor(s, t1, t2) == Fill(Pieces(s), t1, t2)
=============================================================================
