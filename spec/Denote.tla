------------------------------- MODULE Denote -------------------------------
(* The value a definition expression denotes.  Expressions:                                                      *)
(*   [t: "num", v: cell, k: "i"/"f"]   [t: "var", n, x: index (possibly <<>>)]   [t: "op", n, a: <<e>> or <<e, f>>]*)
(*   [t: "fn", n, a: arguments, kw: <<[n, v]>>]   [t: "str", v]                                                  *)
EXTENDS Subgrid, TLC
Known(env, n) == n \in DOMAIN env
RECURSIVE VarsOf(_)
VarsOf(e) == CASE e.t = "var" -> {e.n}
               [] e.t = "op" -> UNION {VarsOf(e.a[i]) : i \in DOMAIN e.a}
               [] e.t = "fn" -> UNION {VarsOf(e.a[i]) : i \in DOMAIN e.a} \cup UNION {VarsOf(e.kw[i].v) : i \in DOMAIN e.kw}
               [] OTHER -> {}
(* dimensions some function of the expression reduces over *)
Reducing == {"mean", "sum", "min", "max"}
RECURSIVE ReducedDims(_)
ReducedDims(e) ==
  CASE e.t = "op" -> UNION {ReducedDims(e.a[i]) : i \in DOMAIN e.a}
    [] e.t = "fn" -> (IF e.n \in Reducing THEN {e.a[i].v : i \in 2 .. Len(e.a)} ELSE {})
                     \cup UNION {ReducedDims(e.a[i]) : i \in DOMAIN e.a}
    [] OTHER -> {}
KwVal(e, n) == IF \E i \in DOMAIN e.kw : e.kw[i].n = n THEN <<e.kw[CHOOSE i \in DOMAIN e.kw : e.kw[i].n = n].v>> ELSE <<>>
NumKw(e, n) == LET k == KwVal(e, n) IN IF k = <<>> THEN <<>> ELSE <<k[1].v>>
(* new units without conversion: what is not given is kept.  g: the units given, <<>> or <<unit>>.                  *)
(* A reference date is kept as a date, for it does not change with the calendar; units of time alone are counted    *)
(* from the date the old units have                                                                               *)
TimeExps == <<0, 0, 1, 0, 0, 0>>
DateRef(u) == IF ~IsTimeRef(u) THEN <<>> ELSE LET d == DateOf(u.cal, u.ref[1]) IN <<d.y, d.m, d.d, u.ref[2]>>
NewUnit(u, e, g) ==
  LET kr == KwVal(e, "refdate") kc == KwVal(e, "calendar")
      uu == IF g = <<>> THEN u ELSE g[1]
      cal == IF kc # <<>> THEN kc[1].v ELSE IF IsTimeRef(uu) THEN uu.cal ELSE u.cal
      ref == IF kr # <<>> THEN kr[1].r ELSE IF IsTimeRef(uu) THEN DateRef(uu) ELSE DateRef(u)
  IN IF ref = <<>> THEN uu
     ELSE IF uu.t # "u" \/ uu.e # TimeExps THEN UnknownUnit
     ELSE TimeRef(uu.k, DayNum(cal, ref[1], ref[2], ref[3]), ref[4], cal)
(* a date without units of time is no unit (a calendar without a date is without effect); G: the quantity whose units *)
(* are taken                                                                                                       *)
ChUnits(A, e, G) ==
  IF A.err # "" THEN A ELSE IF G # <<>> /\ G[1].err # "" THEN Refused("units")
  ELSE LET g == IF G = <<>> THEN <<>> ELSE <<G[1].u>>
           n == NewUnit(A.u, e, g)
           uu == IF g = <<>> THEN A.u ELSE g[1]
       \* the library of units takes 1/s for a unit of time here
       IN IF n.t = "?" /\ uu.t = "u" /\ uu.e = <<0, 0, -1, 0, 0, 0>> THEN Refused("unmodelled")
          ELSE IF n.t = "?" /\ ~(g # <<>> /\ g[1].t = "?") THEN Refused("units") ELSE [A EXCEPT !.u = n]
(* functions of whole axes, with the name of the dimension of bounds, if they make one *)
TimeFns == {"bounds", "monthtoyear_noleap", "monthtoyear_noleap_time", "monthtoyear_noleap_timebnds", "oclim", "oclim_time", "oclim_timebnds",
            "yeartomonth_data", "yeartomonth_data3D", "yeartomonth_time"}
StrKw(e, n, default) == LET k == KwVal(e, n) IN IF k = <<>> THEN default ELSE k[1].v
IntKw(e, n, default) == LET k == NumKw(e, n) IN IF k = <<>> THEN default ELSE IF k[1][2] = 1 THEN k[1][1] ELSE -1
TimeFn(e, A, args, I) ==
  CASE e.n = "bounds" -> Bounds(A, StrKw(e, "bdim", "bnds"), IntKw(e, "location", 1), IntKw(e, "endpoints", 1) # 0, I)
    [] e.n = "monthtoyear_noleap" -> YearlyMean(A)
    [] e.n = "monthtoyear_noleap_time" -> YearTimes(A)
    [] e.n = "monthtoyear_noleap_timebnds" -> YearBounds(A, StrKw(e, "bdim", "d2"))
    [] e.n = "oclim" -> MonthlyClimatology(A)
    [] e.n = "oclim_time" -> ClimTimes(A)
    [] e.n = "oclim_timebnds" -> ClimBounds(A, StrKw(e, "bdim", "d2"))
    [] e.n = "yeartomonth_time" -> SpreadTimes(A)
    [] e.n = "yeartomonth_data" -> Spread(A, args[2], <<args[3], args[4]>>)
    [] OTHER -> Spread(A, args[2], <<args[5], args[3], args[4]>>)
(* functions of the columns of the ocean, and of pieces of fields *)
ColumnFns == {"POP_bottom_layer", "diff_axis1_ind0bczero_4d", "rsdoabsorb", "POP_surf_mean", "POP_3D_mean", "POP_bottom_layer_multadd", "POP_layer_sum_mult", "sftof",
              "get_soilpools", "reduce_lu", "expand_latlon", "hemisphere", "cice_where", "masked_invalid", "burntFraction"}
ColumnFn(e, a) ==
  CASE e.n = "POP_bottom_layer" -> BottomLayer(a[1], a[2])
    [] e.n = "diff_axis1_ind0bczero_4d" -> DownDifference(a[1], a[2], a[3])
    [] e.n = "rsdoabsorb" -> Absorbed(a[1], a[2], a[3])
    [] e.n = "POP_surf_mean" -> SurfaceMean(a[1], a[2], a[3])
    [] e.n = "POP_3D_mean" -> VolumeMean(a[1], a[2], a[3], a[4])
    [] e.n = "POP_bottom_layer_multadd" -> BottomSum(a[1], a[2], a[3])
    [] e.n = "POP_layer_sum_mult" -> LayerSum(a[1], a[2], a[3])
    [] e.n = "sftof" -> SeaFraction(a[1])
    [] e.n = "get_soilpools" -> Pools(a[1], a[2], a[3], a[4])
    [] e.n = "reduce_lu" -> LandUses(a[1], a[2])
    [] e.n = "expand_latlon" -> Expanded(a[1], a[2], a[3])
    [] e.n = "hemisphere" -> Hemisphere(a[1], StrKw(e, "dim", "dim"), StrKw(e, "dr", "dr"))
    [] e.n = "cice_where" -> Where(a[1], e.a[2].v, e.a[3].v, a[4], e.a[5].v)
    [] e.n = "masked_invalid" -> SameField(a[1])
    [] OTHER -> Burnt(a[1])
(* functions of the tiles of land, of regions and of ages *)
SubgridFns == {"CLM_landunit_to_CMIP6_Lut", "CLM_pft_to_CMIP6_vegtype", "get_nonwoodyveg", "ocean_basin", "zonalmean", "ageofair"}
SubgridFn(e, a) ==
  CASE e.n = "CLM_landunit_to_CMIP6_Lut" -> LandUnits(a[1], e.a[2].v, SubSeq(a, 3, Len(a)))
    [] e.n = "CLM_pft_to_CMIP6_vegtype" -> PlantTypes(a[1], e.a[2].v, SubSeq(a, 3, Len(a)))
    [] e.n = "get_nonwoodyveg" -> NonWoody(a[1], a[2], a[3], a[4])
    [] e.n = "ocean_basin" -> Basins(a[1], e.a[2].v[1], a[3])
    [] e.n = "zonalmean" -> ZonalMean(a[1])
    [] OTHER -> AgeOfAir(a[1], a[2], a[3], a[4], a[5])
(* characters take part in no arithmetic *)
CharUnit == [UnknownUnit EXCEPT !.t = "char"]
IsChars(A) == A.err = "" /\ A.dt = "c"
RECURSIVE Eval(_, _)
Eval(e, env) ==
  CASE e.t = "num" -> Scalar(e.v, e.k)
    [] e.t = "var" -> IF ~Known(env, e.n) THEN Refused("unknown variable")
                      ELSE IF e.x = <<>> THEN env[e.n] ELSE Pick(env[e.n], [t |-> "tuple", x |-> e.x])
    [] e.t = "op" ->
         IF Len(e.a) = 1 THEN (IF e.n = "-" THEN LET A == Eval(e.a[1], env) IN IF IsChars(A) THEN Refused("characters") ELSE NegA(A) ELSE Refused("operator"))
         ELSE LET A == Eval(e.a[1], env) B == Eval(e.a[2], env) IN
              CASE IsChars(A) \/ IsChars(B) -> Refused("characters")
                [] e.n = "+" -> AddA(A, B)
                [] e.n = "-" -> SubA(A, B)
                [] e.n = "*" -> MulA(A, B)
                [] e.n = "/" -> DivA(A, B)
                [] e.n = "**" -> PowA(A, B)
                [] OTHER -> Refused("operator")
    [] e.t = "fn" ->
         LET A == Eval(e.a[1], env) IN
         CASE IsChars(A) -> Refused(IF e.n \in {"rmunits", "chunits", "chdims"} THEN "unmodelled" ELSE "characters")
           [] e.n \in Reducing -> Reduce(A, e.n, {e.a[i].v : i \in 2 .. Len(e.a)})
           [] e.n = "sqrt" -> SqrtA(A)
           [] e.n \in {"up", "down"} -> Toward(A, e.n)
           [] e.n = "rmunits" -> IF A.err # "" THEN A ELSE [A EXCEPT !.u = UOne]
           [] e.n = "chunits" -> LET ku == KwVal(e, "units") IN
                ChUnits(A, e, IF ku = <<>> THEN <<>> ELSE IF ku[1].t = "str" THEN <<[Scalar(One, "f") EXCEPT !.u = UnitOf(ku[1].u)]>> ELSE <<Eval(ku[1], env)>>)
           [] e.n = "limit" -> LimitA(A, NumKw(e, "below"), NumKw(e, "above"))
           [] e.n \in TimeFns -> TimeFn(e, A, [i \in DOMAIN e.a |-> IF i = 1 THEN A ELSE Eval(e.a[i], env)],
                                       LET k == KwVal(e, "idata") IN IF k = <<>> THEN <<>> ELSE <<Eval(k[1], env)>>)
           [] e.n \in ColumnFns -> ColumnFn(e, [i \in DOMAIN e.a |-> IF i = 1 THEN A ELSE IF e.a[i].t \in {"str", "num"} THEN Refused("constant") ELSE Eval(e.a[i], env)])
           [] e.n \in SubgridFns -> SubgridFn(e, [i \in DOMAIN e.a |-> IF i = 1 THEN A ELSE IF e.a[i].t \in {"str", "num"} THEN Refused("constant") ELSE Eval(e.a[i], env)])
           [] e.n = "chdims" -> ChDims(A, [i \in 1 .. (Len(e.a) - 1) |-> e.a[i + 1].v])
           [] OTHER -> Refused("function")
    [] OTHER -> Refused("expression")
(* (zonal means reduce over the fourth dimension, whatever its name) *)
RECURSIVE ZonalDims(_, _)
ZonalDims(e, env) ==
  CASE e.t = "op" -> UNION {ZonalDims(e.a[i], env) : i \in DOMAIN e.a}
    [] e.t = "fn" -> (IF e.n = "zonalmean" THEN LET A == Eval(e.a[1], env) IN IF A.err = "" /\ Len(A.dims) > 3 THEN {A.dims[4]} ELSE {} ELSE {})
                     \cup UNION {ZonalDims(e.a[i], env) : i \in DOMAIN e.a}
    [] OTHER -> {}
=============================================================================
