------------------------------ MODULE Calendar ------------------------------
(* Calendars of climate data: day numbers (days since 1600-01-01 of the calendar) and dates, for years >= 1600. *)
EXTENDS Integers, Sequences
CalName(c) == CASE c \in {"noleap", "365_day"} -> "noleap"
                [] c \in {"all_leap", "366_day"} -> "all_leap"
                [] c = "360_day" -> "360_day"
                [] c = "julian" -> "julian"
                [] OTHER -> "gregorian"      \* standard, gregorian, proleptic_gregorian, "" (the default)
(* calendars between which times can be converted are those with the same identity *)
CalId(c) == CASE c \in {"noleap", "365_day"} -> "noleap"
              [] c \in {"all_leap", "366_day"} -> "all_leap"
              [] c \in {"", "standard", "gregorian"} -> "standard"
              [] OTHER -> c
Leap(c, y) == CASE CalName(c) = "noleap" -> FALSE
                [] CalName(c) = "all_leap" -> TRUE
                [] CalName(c) = "julian" -> y % 4 = 0
                [] OTHER -> (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(c, y, m) == IF CalName(c) = "360_day" THEN 30
                     ELSE IF m = 2 THEN (IF Leap(c, y) THEN 29 ELSE 28)
                     ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
YearLen(c, y) == IF CalName(c) = "360_day" THEN 360 ELSE IF Leap(c, y) THEN 366 ELSE 365
(* number of leap years in 1600 .. y-1 *)
LeapsBefore(c, y) == CASE CalName(c) \in {"noleap", "360_day"} -> 0
                       [] CalName(c) = "all_leap" -> y - 1600
                       [] CalName(c) = "julian" -> (y - 1600 + 3) \div 4
                       [] OTHER -> LET k == y - 1600 IN (k + 3) \div 4 - (k + 99) \div 100 + (k + 399) \div 400
YearStart(c, y) == IF CalName(c) = "360_day" THEN (y - 1600) * 360 ELSE (y - 1600) * 365 + LeapsBefore(c, y)
RECURSIVE MonthStart(_, _, _)
MonthStart(c, y, m) == IF m = 1 THEN 0 ELSE MonthStart(c, y, m - 1) + MonthLen(c, y, m - 1)
DayNum(c, y, m, d) == YearStart(c, y) + MonthStart(c, y, m) + d - 1
(* the date of a day number: [y, m, d] *)
RECURSIVE YearFrom(_, _, _)
YearFrom(c, n, y) == IF n >= YearStart(c, y + 1) THEN YearFrom(c, n, y + 1) ELSE IF n < YearStart(c, y) THEN YearFrom(c, n, y - 1) ELSE y
RECURSIVE MonthFrom(_, _, _, _)
MonthFrom(c, y, k, m) == IF k >= MonthStart(c, y, m) + MonthLen(c, y, m) THEN MonthFrom(c, y, k, m + 1) ELSE m
DateOf(c, n) == LET y == YearFrom(c, n, 1600 + n \div 366) k == n - YearStart(c, y) m == MonthFrom(c, y, k, 1)
                IN [y |-> y, m |-> m, d |-> k - MonthStart(c, y, m) + 1]
DayOfYear(c, n) == n - YearStart(c, DateOf(c, n).y) + 1
=============================================================================
