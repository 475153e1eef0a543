------------------------------ MODULE MC_Dates ------------------------------
(* A clock that goes through the days of some years in every calendar, one step of a day or some hours at a time:       *)
(* dates follow one another as they should, day numbers and dates are inverse, the dates in names are ordered as the    *)
(* times are, and templates read as they should for all short names.                                                   *)
EXTENDS Dates
CONSTANTS Years, Steps, Alphabet, MaxLen
Cals == {"standard", "noleap", "360_day", "all_leap", "julian", "proleptic_gregorian"}
VARIABLES cal, n, secs, last
vars == <<cal, n, secs, last>>
Ref(c, y) == [TimeRef(One, 0, 0, c) EXCEPT !.ref = <<DayNum(c, y, 1, 1), 0>>]
Now == DateAt([TimeRef(<<86400, 1>>, 0, 0, cal) EXCEPT !.ref = <<n, secs>>], Zero)
Init == /\ cal \in Cals /\ \E y \in Years : (y >= 1600 \/ cal # "standard") /\ n = DayNum(cal, y, 12, 20)
        /\ secs = 0 /\ last = NoDate
Tick(k) == /\ last' = Now /\ (LET s == secs + k IN n' = n + s \div 86400 /\ secs' = s % 86400) /\ UNCHANGED cal
Span == DateOf(cal, n).y \in {y + k : y \in Years, k \in 0 .. 1} /\ (DateOf(cal, n).m # 3 \/ DateOf(cal, n).y \in Years)
Next == \E k \in Steps : Span /\ Tick(k)
Spec == Init /\ [][Next]_vars
(* --- *)
Inverse == LET d == DateOf(cal, n) IN DayNum(cal, d.y, d.m, d.d) = n /\ d.m \in 1 .. 12 /\ d.d \in 1 .. MonthLen(cal, d.y, d.m) /\ DayOfYear(cal, n) \in 1 .. YearLen(cal, d.y)
Later(a, b) == \/ a.y < b.y \/ (a.y = b.y /\ a.m < b.m) \/ (a.y = b.y /\ a.m = b.m /\ a.d < b.d) \/ (a.y = b.y /\ a.m = b.m /\ a.d = b.d /\ a.s <= b.s)
Ordered == last.ok /\ Now.ok => Later(last, Now) /\ (last.y = Now.y => last.j <= Now.j)
(* the same instant in hours and in seconds since the start of the year *)
SameInUnits == LET y == DateOf(cal, n).y d0 == n - DayNum(cal, y, 1, 1) r == Ref(cal, y) IN
                 /\ DateAt([r EXCEPT !.k = <<3600, 1>>], Norm(d0 * 24 * 4 + secs \div 900, 4)) = DateAt([r EXCEPT !.ref = <<n, 0>>], I2R((secs \div 900) * 900))
                 /\ DateAt(r, I2R(d0 * 86400 + secs)) = Now
(* --- templates: every string over the alphabet *)
Strings == UNION {[1 .. k -> Alphabet] : k \in 0 .. MaxLen}
D1 == [ok |-> TRUE, y |-> 7, m |-> 2, d |-> 3, j |-> 34, s |-> 3723]
ASSUME \A s \in Strings : ~HasTemplate(s) => WellFormed(s) /\ NameFor(s, D1, D1) = Text(s)
ASSUME \A s \in Strings : (HasTemplate(s) /\ Find(s, "}", 1) = 0) => ~WellFormed(s)
(* a well-formed name with one template: text before and after stay *)
ASSUME \A a, b \in UNION {[1 .. k -> Alphabet \ {"{", "}"}] : k \in 0 .. 1} : NameFor(a \o <<"{", "%", "Y", "-", "%", "m", "}">> \o b, D1, D1) = Text(a) \o "0007-02" \o Text(b)
RECURSIVE Closed(_)
Closed(x) == Find(x, "{", 1) = 0 \/ LET i == Find(x, "{", 1) IN
  \E j \in (i + 1) .. Len(x) : x[j] = "}" /\ (\A k \in i .. (j - 1) : x[k] # "}") /\ Cardinality({k \in i .. j : x[k] = "-"}) = 1 /\ Closed(SubSeq(x, j + 1, Len(x)))
ASSUME \A s \in Strings : WellFormed(s) <=> Closed(s)
=============================================================================
