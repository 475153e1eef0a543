-------------------------------- MODULE Flow --------------------------------
(* What a conversion produces: from the input variables, the output variables with their definitions and         *)
(* declarations, and the output files.                                                                           *)
(*  run.inp:  <<[n, dims, shape, dt, un, pos, c]>>                                                                *)
(*  run.vars: <<[n, kind ("def", "data", "none"), ast, dims, ot, u, pos, vmin, vmax, axis, dir, rank, shape, c,  *)
(*              bounds, coords]>>   (listed order)                                                              *)
(*  run.files: <<[n, owner, meta]>>                                                                               *)
EXTENDS Denote, DimMap
VarOf(run, n) == run.vars[CHOOSE i \in DOMAIN run.vars : run.vars[i].n = n]
HasVar(run, n) == \E i \in DOMAIN run.vars : run.vars[i].n = n
(* input variables and output variables given by data can be named in definitions; inputs take precedence *)
(* input without units is without dimension *)
InpUnit(u) == IF "has" \in DOMAIN u /\ ~u.has THEN UOne ELSE UnitOf(u)
(* characters have no units and no direction *)
InpArr(v) == IF v.dt = "c" THEN Arr(v.dims, v.shape, v.c, CharUnit, "", "c") ELSE Arr(v.dims, v.shape, v.c, InpUnit(v.un), v.pos, v.dt)
OtKind(ot) == IF ot = "S1" THEN "c" ELSE IF ot \in {"f4", "f8"} THEN "f" ELSE "i"
DataUnit(d) == IF ~d.has THEN UnknownUnit ELSE IF d.ref = <<>> THEN BaseUnit(d.n) ELSE UnitOf(d)
DataArr(v) == Arr(v.dims, v.shape, v.c, IF v.ot = "S1" THEN CharUnit ELSE DataUnit(v.u), "", OtKind(v.ot))
BadUnit == [UnknownUnit EXCEPT !.t = "bad"]
Given(v) == v.kind # "none"
(* variables that cannot be produced because they name an unknown variable *)
Skipped(v, env) == v.kind = "def" /\ ~(VarsOf(v.ast) \subseteq DOMAIN env)
Producible(v, env) == Given(v) /\ ~Skipped(v, env)
(* --- files: the owner, the listed metadata variables, the metadata variables without file of their own whose     *)
(*     dimensions all belong to those, and their bounds and coordinates, transitively                             *)
Owners(run) == {run.files[i].owner : i \in DOMAIN run.files}
Base(run, f) == {f.owner} \cup MSet(f.meta)
DimsOf(run, S) == UNION {MSet(VarOf(run, n).dims) : n \in S}
Meta(run, f) == {n \in {run.vars[i].n : i \in DOMAIN run.vars} :
                   LET v == VarOf(run, n) IN Given(v) /\ n \notin Owners(run) /\ v.dims # <<>> /\ MSet(v.dims) \subseteq DimsOf(run, Base(run, f))}
Refs(run, n) == LET v == VarOf(run, n) IN (IF v.bounds = "" THEN {} ELSE {v.bounds}) \cup MSet(v.coords)
RECURSIVE Close(_, _)
Close(run, S) == LET T == S \cup UNION {Refs(run, n) : n \in {m \in S : HasVar(run, m)}} IN IF T = S THEN S ELSE Close(run, T)
Contents(run, f) == Close(run, Base(run, f) \cup Meta(run, f))
(* a specification that names a variable that is not there (or has no definition) is refused *)
Described(run) == \A i \in DOMAIN run.files : Given(VarOf(run, run.files[i].owner)) =>
                     /\ MSet(run.files[i].meta) \subseteq {run.vars[j].n : j \in {k \in DOMAIN run.vars : Given(run.vars[k])}}
                     /\ \A n \in Contents(run, run.files[i]) : HasVar(run, n) /\ Given(VarOf(run, n))
LiveFiles(run) == {i \in DOMAIN run.files : Given(VarOf(run, run.files[i].owner))}
(* variables that belong to some file (others are ignored) *)
UsedVars(run) == UNION {Contents(run, run.files[i]) : i \in LiveFiles(run)}
(* the variables that definitions can name: input variables, and the used output variables that are given by data *)
Env(run) ==
  LET inn == {run.inp[i].n : i \in DOMAIN run.inp}
      used == IF Described(run) THEN UsedVars(run) ELSE {}
      dat == {n \in used : VarOf(run, n).kind = "data"}
  IN [n \in inn \cup dat |-> IF n \in inn THEN InpArr(run.inp[CHOOSE i \in DOMAIN run.inp : run.inp[i].n = n]) ELSE DataArr(VarOf(run, n))]
WrittenFiles(run, env) == {i \in LiveFiles(run) : \A n \in Contents(run, run.files[i]) : Producible(VarOf(run, n), env)}
(* --- declared units: what is not declared is inherited *)
OutUnit(d, u) ==
  IF ~d.has THEN u
  ELSE IF IsTimeRef(u) THEN
     LET k == IF d.n = "" THEN u.k ELSE BaseUnit(d.n).k
         cal == IF d.cal = "" THEN u.cal ELSE d.cal
         ref == IF d.ref = <<>> THEN LET t == DateOf(u.cal, u.ref[1]) IN <<t.y, t.m, t.d, u.ref[2]>> ELSE d.ref
     IN IF d.n # "" /\ BaseUnit(d.n).e # <<0, 0, 1, 0, 0, 0>> THEN BadUnit ELSE TimeRef(k, DayNum(cal, ref[1], ref[2], ref[3]), ref[4], cal)
  ELSE IF d.n = "" THEN u
  ELSE UnitOf(d)
(* characters are no numbers, and numbers no characters *)
CastOK(A, ot) == A.err # "" \/ ((A.dt = "c") = (ot = "S1") /\ (OtKind(ot) # "i" \/ A.dt = "i"))
Cast(A, ot) == IF CastOK(A, ot) THEN A ELSE Refused("type")
InRange(x, lo, hi) == ~IsNum(x) \/ ((lo = <<>> \/ RLe(lo[1], x)) /\ (hi = <<>> \/ RLe(x, hi[1])))
MaskRange(A, lo, hi) == IF A.err # "" THEN A ELSE MapCells(A, LAMBDA x : IF InRange(x, lo, hi) THEN x ELSE Missing)
OutOfRange(A, lo, hi) == A.err = "" /\ \E k \in DOMAIN A.c : ~InRange(A.c[k], lo, hi)
Definition(v, env) == IF v.kind = "data" THEN DataArr(v) ELSE Eval(v.ast, env)
(* the values of an output variable before the valid range is applied; o2i is the dimension map *)
ToDeclared(v, A, o2i) ==
  LET A0 == IF v.kind = "data" THEN A ELSE Rename(A, [i \in DOMAIN A.dims |-> ToOut(o2i, A.dims[i])])
      A1 == IF A0.err # "" \/ ~v.u.has THEN A0 ELSE IF A0.dt = "c" THEN Refused(IF v.u.n = "" THEN "unmodelled" ELSE "units") ELSE Conv(A0, OutUnit(v.u, A0.u))
      \* where the string length comes last, and a single character, nothing is specified
      A2 == IF A1.err = "" /\ A1.dt = "c" /\ (A1.dims = <<>> \/ v.dims = <<>> \/ (A1.dims[Len(A1.dims)] # v.dims[Len(v.dims)] /\ SetOf(A1.dims) = SetOf(v.dims))) THEN Refused("unmodelled") ELSE Cast(A1, v.ot)
      A3 == Transpose(A2, v.dims)
      A4 == IF v.pos # "" /\ A3.pos # v.pos THEN Flip(A3) ELSE A3
  IN A4
(* --- lengths of output dimensions: those of the data given in the specification, or of the input dimension *)
InputDims(run) == UNION {SetOf(run.inp[i].dims) : i \in DOMAIN run.inp}
InputLen(run, d) == LET i == CHOOSE i \in DOMAIN run.inp : InSeq(d, run.inp[i].dims) IN SizeOf(run.inp[i], d)
GivenLens(run, used, d) == {SizeOf(VarOf(run, n), d) : n \in {m \in used : VarOf(run, m).kind = "data" /\ InSeq(d, VarOf(run, m).dims)}}
UsedDims(run, used) == UNION {MSet(VarOf(run, n).dims) : n \in used}
StringLength(run, used, d) == \E n \in used : LET v == VarOf(run, n) IN v.ot = "S1" /\ v.dims # <<>> /\ v.dims[Len(v.dims)] = d
OutLen(run, used, o2i, d) ==
  LET g == GivenLens(run, used, d)
      i == IF d \in DOMAIN o2i /\ o2i[d] \in InputDims(run) THEN InputLen(run, o2i[d]) ELSE -1
  \* the length of strings is that of the longest: given, or read
  IN IF g = {} THEN i ELSE LET n == CHOOSE n \in g : TRUE IN IF StringLength(run, used, d) /\ i > n THEN i ELSE n
Unlim(run, used, o2i, d) == GivenLens(run, used, d) = {} /\ d \in DOMAIN o2i /\ InSeq(o2i[d], run.unlim)
(* data has the lengths of its dimensions; along an unlimited dimension that is not written in chunks it can have   *)
(* any length                                                                                                       *)
Fits(A, lens, free) == IF A.err # "" THEN A
  ELSE IF \A i \in DOMAIN A.dims : A.shape[i] = lens[A.dims[i]] \/ (A.dims[i] \in free /\ A.shape[i] > 0)
                                    \* strings are padded
                                    \/ (A.dt = "c" /\ i = Len(A.dims) /\ A.shape[i] < lens[A.dims[i]]) THEN A ELSE Refused("length")
(* cells that are not given are missing *)
Pad(A, flen) ==
  IF A.err # "" \/ \A i \in DOMAIN A.dims : A.shape[i] = flen[A.dims[i]] THEN A
  ELSE LET sh == [i \in DOMAIN A.dims |-> flen[A.dims[i]]]
       IN [A EXCEPT !.shape = sh, !.c = [k \in 1 .. Prod(sh) |-> LET co == CoordsOf(k - 1, sh) IN
             IF \A i \in DOMAIN co : co[i] < A.shape[i] THEN A.c[FlatOf(co, A.shape) + 1] ELSE Missing]]
Produced(v, A, o2i, lens, free) == MaskRange(Fits(ToDeclared(v, A, o2i), lens, free), v.vmin, v.vmax)
(* --- the dimension map is derived from the used variables with string definitions *)
MapVars(run, used, env, defs) ==
  LET S == {i \in DOMAIN run.vars : run.vars[i].kind = "def" /\ run.vars[i].n \in DOMAIN defs}
      F[i \in 0 .. Len(run.vars)] == IF i = 0 THEN <<>> ELSE IF i \in S THEN Append(F[i - 1], [out |-> run.vars[i].dims, inp |-> defs[run.vars[i].n].dims, rank |-> run.vars[i].rank]) ELSE F[i - 1]
  IN F[Len(run.vars)]
(* --- direction of coordinates: dimensions of a file that are written reversed *)
Direction(A) == IF \A k \in 1 .. (Len(A.c) - 1) : RLt(A.c[k], A.c[k + 1]) THEN "increasing"
                ELSE IF \A k \in 1 .. (Len(A.c) - 1) : RLt(A.c[k + 1], A.c[k]) THEN "decreasing" ELSE ""
IsCoord(v) == Len(v.dims) = 1 /\ v.axis /\ v.dir # ""
Hidden(v) == v.hidden
Reversed(run, names, arrs) == {VarOf(run, n).dims[1] : n \in {m \in names : IsCoord(VarOf(run, m)) /\ ~Hidden(VarOf(run, m)) /\ Direction(arrs[m]) # VarOf(run, m).dir}}
NoDirection(run, names, arrs) == \E n \in names : IsCoord(VarOf(run, n)) /\ ~Hidden(VarOf(run, n)) /\
                                    (VarOf(run, n).dir \notin {"increasing", "decreasing"} \/ Direction(arrs[n]) = "")
Reverse(A, R) ==
  IF A.err # "" \/ SetOf(A.dims) \cap R = {} THEN A
  ELSE [A EXCEPT !.c = [k \in DOMAIN A.c |-> LET co == CoordsOf(k - 1, A.shape) IN
           A.c[FlatOf([i \in DOMAIN co |-> IF A.dims[i] \in R THEN A.shape[i] - 1 - co[i] ELSE co[i]], A.shape) + 1]]]
(* --- the whole run *)
Clash(run, used) == \E d \in UsedDims(run, used) : Cardinality(GivenLens(run, used, d)) > 1
Outcome(run) ==
  LET described == Described(run) /\ ~Clash(run, UsedVars(run))
      used == IF described THEN UsedVars(run) ELSE {}
      env == Env(run)
      made == {n \in used : Producible(VarOf(run, n), env)}
      defs == TLCEval([n \in made |-> Definition(VarOf(run, n), env)])
      bad == {n \in made : defs[n].err # ""}
      m == DeriveMap(MapVars(run, used, env, defs))
      lens == TLCEval([d \in UsedDims(run, made) |-> OutLen(run, used, m.o2i, d)])
      free == {d \in DOMAIN lens : Unlim(run, made, m.o2i, d) /\ \A k \in DOMAIN run.chunks : run.chunks[k][1] = d => run.chunks[k][2] >= lens[d]}
      planned == described /\ m.ok /\ \A d \in DOMAIN lens : lens[d] >= 0
      wf == IF described THEN WrittenFiles(run, env) ELSE {}
      out == TLCEval([n \in made |-> IF planned THEN Produced(VarOf(run, n), defs[n], m.o2i, lens, free) ELSE Refused("plan")])
      raw == TLCEval([n \in made |-> IF planned THEN ToDeclared(VarOf(run, n), defs[n], m.o2i) ELSE Refused("plan")])
      names(i) == {n \in Contents(run, run.files[i]) : ~Hidden(VarOf(run, n))}
  IN [described |-> described, env |-> env, made |-> made, defs |-> defs, mapok |-> m.ok, o2i |-> m.o2i, lens |-> lens, free |-> free, planned |-> planned,
      files |-> wf, out |-> out, raw |-> raw, used |-> used,
      names |-> [i \in wf |-> names(i)],
      \* a definition without value may be refused even where no file needs it
      bad |-> bad,
      unmodelled |-> {n \in made : defs[n].err = "unmodelled" \/ out[n].err = "unmodelled"},
      rev |-> [i \in wf |-> IF \E n \in names(i) : out[n].err # "" THEN {} ELSE Reversed(run, names(i), out)],
      badfile |-> {i \in wf : (\E n \in names(i) : out[n].err # "") \/ ((\A n \in names(i) : out[n].err = "") /\ NoDirection(run, names(i), out))}]
=============================================================================
