---------------------------- MODULE MachineJudge ----------------------------
(* Judgement of one recorded step of the real arrays: r.regs are all live registers before the step, r.after the   *)
(* same registers after it, r.res what the operation returned, r.err "" or an error.                              *)
EXTENDS TraceBase, Machine
ArrObs(a) == [err |-> "", dims |-> a.dims, shape |-> a.shape, c |-> a.c, u |-> UnitObs(a.u), pos |-> a.pos, dt |-> a.dt]
RegsOf(s) == [n \in {s[i].n : i \in DOMAIN s} |-> ArrObs((s[CHOOSE i \in DOMAIN s : s[i].n = n]).a)]
KnownUnits(regs) == \A n \in DOMAIN regs : regs[n].u.t \in {"u", "n", "?"} /\ regs[n].u.k # Unknown
CellsOK(A, B) == \A k \in DOMAIN A.c : A.c[k] = Missing \/ B.c[k] = Missing \/ Agree(A.c[k], B.c[k], 1000000)
MissOK(A, B) == \A k \in DOMAIN A.c : A.c[k] = Unknown \/ (A.c[k] = Missing) = (B.c[k] = Missing)
SameShape(E, G) == E.dims = G.dims /\ E.shape = G.shape
Matches(E, G) ==
  Clause(E.dims = G.dims, "result_dimensions") \cup Clause(E.dims # G.dims \/ E.shape = G.shape, "result_shape")
  \cup (IF SameShape(E, G) THEN Clause(MissOK(E, G), "result_missing") \cup Clause(CellsOK(E, G), "result_values") ELSE {})
  \cup Clause(AgreeUnit(E.u, G.u), "result_units") \cup Clause(E.pos = G.pos, "result_positive")
  \* a single missing item has no type of its own; times counted from another date may stay whole numbers
  \cup Clause(E.dt = G.dt \/ IsTimeRef(E.u) \/ (E.dims = <<>> /\ E.c = <<Missing>>), "result_type")
JudgeStep(r) ==
  LET regs == RegsOf(r.regs)
      R == Result(regs, r.op)
      E == R.res
      after == RegsOf(r.after)
      others == {n \in DOMAIN regs : n # R.target \/ E.err # ""}
      changed == {i \in DOMAIN r.regs : r.regs[i].n \in others /\ r.regs[i] # r.after[i]}
  IN IF ~KnownUnits(regs) \/ E.err = "unmodelled" THEN {}
     ELSE (IF E.err # "" THEN Clause(r.err # "", "meaningless_operation_accepted")
           ELSE IF r.err # "" THEN {"operation_refused"}
           ELSE Matches(E, ArrObs(r.res)) \cup (IF R.target = "" THEN {} ELSE {c \o "_in_place" : c \in Matches(E, after[R.target])}))
          \* a refused operation in place may leave its target in any state
          \cup Clause(\A i \in changed : r.regs[i].n = R.target, "operand_changed")
TagsStep(r) ==
  LET regs == RegsOf(r.regs) R == Result(regs, r.op) E == R.res
      A == Get(regs, r.op.a) B == Get(regs, r.op.b)
      two == r.op.o \in {"add", "sub", "mul", "div", "floordiv", "iadd", "isub", "imul", "idiv"}
  IN {"step:" \o r.op.o} \cup Tag(r.op.o = "fn", "fn:" \o (IF r.op.o = "fn" THEN r.op.f ELSE ""))
     \cup Tag(E.err # "", "step_refused") \cup Tag(r.err = "" /\ Missing \in {E.c[k] : k \in DOMAIN E.c}, "step_missing")
     \cup Tag(two /\ E.err = "" /\ A.pos # "" /\ B.pos # "" /\ A.pos # B.pos, "step_opposite")
     \cup Tag(two /\ E.err = "" /\ (A.pos = "") # (B.pos = ""), "step_half_directed")
     \cup Tag(two /\ E.err = "" /\ r.op.o \in {"add", "sub", "iadd", "isub"} /\ ~SameUnit(A.u, B.u), "step_converted")
     \cup Tag(two /\ E.err = "" /\ Len(A.dims) > 1 /\ Len(B.dims) > 1 /\ A.dims # B.dims, "step_aligned")
     \cup Tag(two /\ E.err = "units", "step_inconvertible") \cup Tag(two /\ E.err = "dims", "step_lengths_differ")
     \cup Tag(R.target # "", "step_in_place")
     \cup Tag(r.op.o \in {"add", "sub", "iadd", "isub"} /\ IsTimeRef(A.u) /\ IsTimeRef(B.u), IF A.u.cal = B.u.cal THEN "step_times" ELSE "step_calendars")
     \cup Tag(r.op.o = "convert" /\ IsTimeRef(A.u) /\ r.op.u.ref # <<>>, IF A.err = "" /\ r.op.o = "convert" /\ r.op.u.ref # <<>> /\ CalId(r.op.u.cal) = A.u.cal THEN "convert_times" ELSE "convert_calendars")
     \cup Tag(r.op.o = "fn" /\ E.err = "" /\ r.op.f = "chunits" /\ r.op.kw # <<>> /\ (Len(r.op.kw) > 1 \/ r.op.kw[1].v.t = "reg"), "chunits_by_parts")
     \cup Tag(r.op.o = "fn" /\ E.err = "" /\ r.op.f = "chunits" /\ IsTimeRef(E.u) /\ IsTimeRef(A.u) /\ E.u.cal # A.u.cal, "chunits_calendar")
=============================================================================
