------------------------------ MODULE MC_Series ------------------------------
(* A source emits the instants of a regular series; they are put into files, a file is closed at any time, instants  *)
(* and files get lost or doubled.  Then the files are ordered by the middle of their first and last times and         *)
(* accepted when each is regular and starts one step after the one before ended.                                      *)
EXTENDS Series
CONSTANTS Cals, Kinds, MaxTimes, MaxFaults, Least
VARIABLES cal, kind, t, cur, files, faults
vars == <<cal, kind, t, cur, files, faults>>
Start0(c) == I2R(DayNum(c, 1999, 11, 1))
After(c, k, x) == CASE k = "6h" -> RAdd(x, <<1, 4>>) [] k = "day" -> RAdd(x, One)
                    [] k = "mon" -> LET d == DateR(c, x) IN I2R(IF d.m = 12 THEN DayNum(c, d.y + 1, 1, d.d) ELSE DayNum(c, d.y, d.m + 1, d.d))
                    [] k = "year" -> LET d == DateR(c, x) IN I2R(DayNum(c, d.y + 1, d.m, d.d))
Init == cal \in Cals /\ kind \in Kinds /\ t = Start0(cal) /\ cur = <<>> /\ files = <<>> /\ faults = 0
Count == Len(Concat(files)) + Len(cur) + faults
Emit == Count < MaxTimes /\ cur' = Append(cur, t) /\ t' = After(cal, kind, t) /\ UNCHANGED <<cal, kind, files, faults>>
Lose == Count < MaxTimes /\ faults < MaxFaults /\ t' = After(cal, kind, t) /\ faults' = faults + 1 /\ UNCHANGED <<cal, kind, cur, files>>
Close == Len(cur) >= Least /\ files' = Append(files, cur) /\ cur' = <<>> /\ UNCHANGED <<cal, kind, t, faults>>
Double == faults < MaxFaults /\ files # <<>> /\ Count + Len(files[Len(files)]) <= MaxTimes /\ files' = Append(files, files[Len(files)]) /\ faults' = faults + 1 /\ UNCHANGED <<cal, kind, t, cur>>
Next == Emit \/ Lose \/ Close \/ Double
Spec == Init /\ [][Next]_vars
(* --- the grouping *)
Mid(f) == RAdd(f[1], f[Len(f)])
Rank(i) == 1 + Cardinality({j \in DOMAIN files : RLt(Mid(files[j]), Mid(files[i])) \/ (Mid(files[j]) = Mid(files[i]) /\ j < i)})
Ordered == [k \in DOMAIN files |-> files[CHOOSE i \in DOMAIN files : Rank(i) = k]]
PerOf(f) == IF OfDay(f[2]) # OfDay(f[3]) \/ DateR(cal, f[2]).d # DateR(cal, f[3]).d THEN "step" ELSE IF DateR(cal, f[2]).m # DateR(cal, f[3]).m THEN "mon" ELSE "year"
Inside(f) == CASE PerOf(f) = "step" -> \A i \in 2 .. Len(f) : RSub(f[i], f[i - 1]) = RSub(f[3], f[2])
               [] PerOf(f) = "mon" -> Months(cal, f) [] OTHER -> Years(cal, f)
Joins(f, g) == CASE PerOf(g) = "step" -> g[1] = RAdd(f[Len(f)], RSub(f[3], f[2]))
                 [] PerOf(g) = "mon" -> MonthNo(cal, g[1]) = MonthNo(cal, f[Len(f)]) + 1 [] OTHER -> YearNo(cal, g[1]) = YearNo(cal, f[Len(f)]) + 1
Accepted == (\A i \in DOMAIN files : Inside(files[i])) /\ \A k \in 2 .. Len(files) : Joins(Ordered[k - 1], Ordered[k])
(* files whose own steps differ look like series of different frequencies *)
SameSteps == \A i \in DOMAIN files : PerOf(files[i]) = PerOf(files[1]) /\ (PerOf(files[i]) = "step" => RSub(files[i][3], files[i][2]) = RSub(files[1][3], files[1][2]))
(* --- checked: exactly the series without faults are accepted, and nothing is lost by ordering *)
Exactly == files # <<>> /\ SameSteps => (Accepted <=> Regular(cal, Concat(Ordered)))
Sound == files # <<>> /\ SameSteps /\ Accepted => ~Broken(cal, Concat(Ordered))
NoFault == faults = 0 /\ files # <<>> => Accepted
Sorted == (files # <<>> /\ Accepted) => Increasing(Concat(Ordered))
=============================================================================
