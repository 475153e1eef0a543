-------------------------------- MODULE Units --------------------------------
(* Units of measure: the quantity with number v is k * (v + o) in the base units with exponents e                *)
(* (metre, kilogram, second, kelvin, mole, radian); time references carry ref = <<day number, seconds>> (the     *)
(* day number in the calendar cal) and their k is in seconds.  t: "u" a unit, "n" no unit, "?" unknown.          *)
EXTENDS Rat, Calendar
U(k, o, e) == [t |-> "u", k |-> k, o |-> o, e |-> e, ref |-> <<>>, cal |-> ""]
E0 == <<0, 0, 0, 0, 0, 0>>
UOne == U(One, Zero, E0)
NoUnit == [t |-> "n", k |-> One, o |-> Zero, e |-> E0, ref |-> <<>>, cal |-> ""]
UnknownUnit == [t |-> "?", k |-> One, o |-> Zero, e |-> E0, ref |-> <<>>, cal |-> ""]
TimeRef(k, day, sec, cal) == [t |-> "u", k |-> k, o |-> Zero, e |-> <<0, 0, 1, 0, 0, 0>>, ref |-> <<day, sec>>, cal |-> CalId(cal)]
IsTimeRef(u) == u.ref # <<>>
BaseUnit(n) ==
  CASE n \in {"1", "kg/kg", "mol mol-1", "m/m"} -> UOne
    [] n = "%" -> U(<<1, 100>>, Zero, E0)
    [] n \in {"g/kg", "1e-3", "g kg-1"} -> U(<<1, 1000>>, Zero, E0)
    [] n = "1e-6" -> U(<<1, 1000000>>, Zero, E0)
    [] n \in {"m", "meter"} -> U(One, Zero, <<1, 0, 0, 0, 0, 0>>)
    [] n = "cm" -> U(<<1, 100>>, Zero, <<1, 0, 0, 0, 0, 0>>)
    [] n = "mm" -> U(<<1, 1000>>, Zero, <<1, 0, 0, 0, 0, 0>>)
    [] n = "km" -> U(<<1000, 1>>, Zero, <<1, 0, 0, 0, 0, 0>>)
    [] n = "m2" -> U(One, Zero, <<2, 0, 0, 0, 0, 0>>)
    [] n = "cm2" -> U(<<1, 10000>>, Zero, <<2, 0, 0, 0, 0, 0>>)
    [] n = "km2" -> U(<<1000000, 1>>, Zero, <<2, 0, 0, 0, 0, 0>>)
    [] n = "m3" -> U(One, Zero, <<3, 0, 0, 0, 0, 0>>)
    [] n = "kg" -> U(One, Zero, <<0, 1, 0, 0, 0, 0>>)
    [] n = "g" -> U(<<1, 1000>>, Zero, <<0, 1, 0, 0, 0, 0>>)
    [] n \in {"kg m-2", "kg/m2"} -> U(One, Zero, <<-2, 1, 0, 0, 0, 0>>)
    [] n = "g m-2" -> U(<<1, 1000>>, Zero, <<-2, 1, 0, 0, 0, 0>>)
    [] n \in {"kg m-2 s-1", "kg/m2/s"} -> U(One, Zero, <<-2, 1, -1, 0, 0, 0>>)
    [] n = "g m-2 s-1" -> U(<<1, 1000>>, Zero, <<-2, 1, -1, 0, 0, 0>>)
    [] n = "kg m-3" -> U(One, Zero, <<-3, 1, 0, 0, 0, 0>>)
    [] n = "g cm-3" -> U(<<1000, 1>>, Zero, <<-3, 1, 0, 0, 0, 0>>)
    [] n \in {"s", "seconds", "second"} -> U(One, Zero, <<0, 0, 1, 0, 0, 0>>)
    [] n \in {"min", "minutes"} -> U(<<60, 1>>, Zero, <<0, 0, 1, 0, 0, 0>>)
    [] n \in {"hour", "hours", "h"} -> U(<<3600, 1>>, Zero, <<0, 0, 1, 0, 0, 0>>)
    [] n \in {"day", "days", "d"} -> U(<<86400, 1>>, Zero, <<0, 0, 1, 0, 0, 0>>)
    (* (of which the length in seconds has no representation here) *)
    [] n = "yr" -> U(Unknown, Zero, <<0, 0, 1, 0, 0, 0>>)
    [] n \in {"m s-1", "m/s"} -> U(One, Zero, <<1, 0, -1, 0, 0, 0>>)
    [] n = "cm/s" -> U(<<1, 100>>, Zero, <<1, 0, -1, 0, 0, 0>>)
    [] n \in {"km/h", "km hour-1"} -> U(<<5, 18>>, Zero, <<1, 0, -1, 0, 0, 0>>)
    [] n = "K" -> U(One, Zero, <<0, 0, 0, 1, 0, 0>>)
    [] n = "degC" -> U(One, <<5463, 20>>, <<0, 0, 0, 1, 0, 0>>)
    [] n = "degF" -> U(<<5, 9>>, <<45967, 100>>, <<0, 0, 0, 1, 0, 0>>)
    [] n = "Pa" -> U(One, Zero, <<-1, 1, -2, 0, 0, 0>>)
    [] n \in {"hPa", "mbar"} -> U(<<100, 1>>, Zero, <<-1, 1, -2, 0, 0, 0>>)
    [] n = "W m-2" -> U(One, Zero, <<0, 1, -3, 0, 0, 0>>)
    [] n = "kW m-2" -> U(<<1000, 1>>, Zero, <<0, 1, -3, 0, 0, 0>>)
    [] n = "J m-2" -> U(One, Zero, <<0, 1, -2, 0, 0, 0>>)
    [] n = "m2 s-2" -> U(One, Zero, <<2, 0, -2, 0, 0, 0>>)
    [] n \in {"no unit", "no_unit"} -> NoUnit
    [] n = "" -> UnknownUnit
    [] OTHER -> UnknownUnit
(* units as records give them: [n: name] or [n: name, ref: <<y, m, d, seconds>>, cal: calendar] *)
UnitOf(x) == IF x.ref = <<>> THEN BaseUnit(x.n)
             ELSE TimeRef(BaseUnit(x.n).k, DayNum(x.cal, x.ref[1], x.ref[2], x.ref[3]), x.ref[4], x.cal)
(* units as projections of observed units give them: the reference date as <<y, m, d, seconds>> *)
UnitObs(x) == IF x.t # "u" THEN [NoUnit EXCEPT !.t = x.t]
              ELSE [t |-> "u", k |-> x.k, o |-> x.o, e |-> x.e, cal |-> IF x.ref = <<>> THEN "" ELSE CalId(x.cal),
                    ref |-> IF x.ref = <<>> THEN <<>> ELSE <<DayNum(x.cal, x.ref[1], x.ref[2], x.ref[3]), x.ref[4]>>]
SameUnit(u, v) == u.t = v.t /\ (u.t = "u" => u.e = v.e /\ u.k = v.k /\ u.o = v.o /\ u.ref = v.ref /\ (u.ref # <<>> => u.cal = v.cal))
(* an expected unit agrees with an observed one, up to scale factors beyond TLC's integers *)
AgreeUnit(u, v) == u.t = v.t /\ (u.t = "u" => u.e = v.e /\ (u.k = Unknown \/ v.k = Unknown \/ u.k = v.k \/ (u.k[1] > 100000 /\ u.k[1] # 1000000) \/ (u.k[2] > 100000 /\ u.k[2] # 1000000)) /\ u.o = v.o /\ u.ref = v.ref /\ (u.ref # <<>> => u.cal = v.cal))
(* a quantity per one and one per that quantity (a frequency and a period) convert by inversion                     *)
Reciprocal(u, v) == u.t = "u" /\ v.t = "u" /\ ~IsTimeRef(u) /\ ~IsTimeRef(v) /\ u.e # E0 /\ \A i \in 1 .. 6 : u.e[i] = -v.e[i]
Convertible(u, v) == \/ SameUnit(u, v)
                     \/ u.t = "u" /\ v.t = "u" /\ u.e = v.e /\ IsTimeRef(u) = IsTimeRef(v) /\ (IsTimeRef(u) => u.cal = v.cal)
                     \/ Reciprocal(u, v)
ConvCell(x, u, v) ==
  IF SameUnit(u, v) \/ x = Missing THEN x
  ELSE IF IsTimeRef(u) THEN
     LET r == RDiv(u.k, v.k)
         days == RDiv(RMul(I2R(u.ref[1] - v.ref[1]), <<86400, 1>>), v.k)
         secs == RDiv(I2R(u.ref[2] - v.ref[2]), v.k)
     IN RAdd(RMul(x, r), RAdd(IF u.ref[1] = v.ref[1] THEN Zero ELSE RMul(I2R(u.ref[1] - v.ref[1]), RDiv(<<86400, 1>>, v.k)), secs))
  ELSE IF Reciprocal(u, v) THEN (LET y == RMul(RAdd(x, u.o), u.k) IN IF y = Zero THEN Unknown ELSE RSub(RDiv(RInv(y), v.k), v.o))
  ELSE RSub(RMul(RAdd(x, u.o), RDiv(u.k, v.k)), v.o)
Add6(a, b) == [i \in 1 .. 6 |-> a[i] + b[i]]
Sub6(a, b) == [i \in 1 .. 6 |-> a[i] - b[i]]
(* products, quotients and powers measure from the absolute zero of the unit: the offset is dropped; the number   *)
(* itself is not converted                                                                                        *)
UMul(u, v) == U(RMul(u.k, v.k), Zero, Add6(u.e, v.e))
UDiv(u, v) == U(RDiv(u.k, v.k), Zero, Sub6(u.e, v.e))
UPow(u, n) == IF n = 1 THEN u ELSE IF n = 0 THEN UOne ELSE U(RPow(u.k, n), Zero, [i \in 1 .. 6 |-> u.e[i] * n])
Rootable(u) == u.t = "u" /\ u.o = Zero /\ u.ref = <<>> /\ \A i \in 1 .. 6 : u.e[i] % 2 = 0
URoot(u) == U(RSqrt(u.k), Zero, [i \in 1 .. 6 |-> u.e[i] \div 2])
=============================================================================
