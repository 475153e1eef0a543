------------------------------- MODULE Series -------------------------------
(* Series of times spread over files.  Instants are rationals: days since the beginning of 1600 of the calendar.     *)
EXTENDS Units, FiniteSets, TLC
(* the instant of the number x in units [n, ref, cal] *)
Instant(un, x) == LET q == CASE un.n = "days" -> 1 [] un.n = "hours" -> 24 [] un.n = "minutes" -> 1440 [] un.n = "seconds" -> 86400
                  IN RAdd(RMul(x, <<1, q>>), RAdd(I2R(DayNum(un.cal, un.ref[1], un.ref[2], un.ref[3])), Norm(un.ref[4], 86400)))
FloorR(x) == x[1] \div x[2]
DateR(cal, t) == DateOf(cal, FloorR(t))
OfDay(t) == RSub(t, I2R(FloorR(t)))
MonthNo(cal, t) == LET d == DateR(cal, t) IN d.y * 12 + d.m
YearNo(cal, t) == DateR(cal, t).y
(* sequences of instants that are one step after another: of equal length, of months, of years *)
Constant(ts) == \A i \in 2 .. Len(ts) : RLt(ts[i - 1], ts[i]) /\ RSub(ts[i], ts[i - 1]) = RSub(ts[2], ts[1])
SameDay(cal, a, b) == DateR(cal, a).d = DateR(cal, b).d /\ OfDay(a) = OfDay(b)
Months(cal, ts) == \A i \in 2 .. Len(ts) : MonthNo(cal, ts[i]) = MonthNo(cal, ts[i - 1]) + 1
Monthly(cal, ts) == Months(cal, ts) /\ \A i \in 2 .. Len(ts) : SameDay(cal, ts[i - 1], ts[i])
Years(cal, ts) == \A i \in 2 .. Len(ts) : YearNo(cal, ts[i]) = YearNo(cal, ts[i - 1]) + 1
Yearly(cal, ts) == Years(cal, ts) /\ \A i \in 2 .. Len(ts) : SameDay(cal, ts[i - 1], ts[i]) /\ DateR(cal, ts[i]).m = DateR(cal, ts[1]).m
(* (steps of several whole months or years, as in calendars without leap years, are left open)                        *)
Wide(cal, ts) == Len(ts) > 2 /\ SameDay(cal, ts[2], ts[3]) /\ ~RLt(RSub(ts[3], ts[2]), I2R(28))
Regular(cal, ts) == (Constant(ts) /\ ~Wide(cal, ts)) \/ Monthly(cal, ts) \/ Yearly(cal, ts)
(* not regular in any way of speaking (days of months and years may vary a little) *)
Broken(cal, ts) == ~Constant(ts) /\ ~Months(cal, ts) /\ ~Years(cal, ts)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))
Before(a, b) == RLt(a[Len(a)], b[1])
Increasing(ts) == \A i \in 2 .. Len(ts) : RLt(ts[i - 1], ts[i])
=============================================================================
